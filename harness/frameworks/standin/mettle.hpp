// Stand-in for the parts of the mettle framework an integration may use.
#pragma once
#include <stdexcept>
#include <string>
namespace mettle {
class expectation_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
}
