// A plain driver for frameworks whose failures are exceptions or recorded by a stand-in.
#pragma once
template<class F> static void plainTests(int from, int to, F one) {
    for (int k = from; k < to; k++) {
        size_t before = runs[k].got.size();
        one(k);
        runs[k].ended++;
        runs[k].failed = runs[k].got.size() > before;
    }
}
