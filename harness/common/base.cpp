#include "base.hpp"

#include <fcntl.h>
#include <unistd.h>

namespace vh {

std::string jsonEscape(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = (unsigned char) s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

static std::map<std::string, std::string> theOptions;
const std::map<std::string, std::string> &options() { return theOptions; }
std::string option(const std::string &k, const std::string &dflt) {
    std::map<std::string, std::string>::iterator i = theOptions.find(k);
    return i == theOptions.end() ? dflt : i->second;
}

static void writeResult(const std::string &file, const Ctx &c) {
    FILE *f = fopen(file.c_str(), "w");
    if (!f) { perror("result"); _exit(9); }
    fprintf(f, "{\"evaluations\": %ld, \"judged\": %ld,\n \"counters\": {", c.obs.operations, c.obs.evaluations);
    bool first = true;
    for (std::map<std::string, long>::const_iterator i = c.obs.counters.begin(); i != c.obs.counters.end(); ++i) {
        fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jsonEscape(i->first).c_str(), i->second);
        first = false;
    }
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < c.obs.samples.size(); i++)
        fprintf(f, "%s\"%s\"", i ? ", " : "", jsonEscape(c.obs.samples[i]).c_str());
    fprintf(f, "],\n \"violations\": [");
    for (size_t i = 0; i < c.obs.violations.size(); i++)
        fprintf(f, "%s\"%s\"", i ? ", " : "", jsonEscape(c.obs.violations[i]).c_str());
    fprintf(f, "],\n \"distinct\": [");
    first = true;
    for (std::unordered_set<uint64_t>::const_iterator i = c.obs.distinct.begin(); i != c.obs.distinct.end(); ++i) {
        fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long) *i);
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
}

static int progress = -1;

Rng startCase(Ctx &ctx, long n) {
    if (progress >= 0) {
        char b[32];
        int len = snprintf(b, sizeof b, "%-20ld\n", n);
        if (pwrite(progress, b, len, 0) != len) _exit(9);
    }
    ctx.caseNo = n;
    if (ctx.obs.trace) { ctx.trace("== case " + str(n)); }
    return Rng(mix64(ctx.seed * 1000003u + 17) ^ mix64((uint64_t) n));
}

// Options: --seed N --from A --to B --out FILE [--progress FILE] [--trace FILE] [--tier T] [--verbose 1] ...
static int mainWith(int argc, char **argv, const std::function<void(Ctx &, long, long)> &all) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k.compare(0, 2, "--") == 0) k = k.substr(2);
        theOptions[k] = argv[i + 1];
    }
    Ctx ctx;
    ctx.seed = strtoull(option("seed", "1").c_str(), nullptr, 10);
    ctx.tier = option("tier", "quick");
    ctx.verbose = option("verbose") == "1";
    long from = atol(option("from", "0").c_str()), to = atol(option("to", "1").c_str());
    if (!option("progress").empty())
        progress = open(option("progress").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    std::string trace;
    if (!option("trace").empty()) ctx.obs.trace = &trace;
    all(ctx, from, to);
    if (ctx.obs.trace) {
        FILE *f = fopen(option("trace").c_str(), "w");
        if (!f) return 9;
        fwrite(trace.data(), 1, trace.size(), f);
        fclose(f);
    }
    if (!option("out").empty()) writeResult(option("out"), ctx);
    return 0;
}

int batchMain(int argc, char **argv, BatchFn fn) { return mainWith(argc, argv, fn); }

int shardMain(int argc, char **argv, CaseFn fn) {
    return mainWith(argc, argv, [fn](Ctx &ctx, long from, long to) {
        for (long n = from; n < to; n++) {
            Rng rng = startCase(ctx, n);
            try {
                fn(ctx, rng);
            } catch (const CaseFailed &) {
            } catch (const std::exception &e) {
                ctx.violation("escaped-exception", std::string("an exception escaped from the case: ") + e.what());
            } catch (...) {
                ctx.violation("escaped-exception", "an unknown exception escaped from the case");
            }
            ctx.obs.count("cases");
            if (ctx.obs.violations.size() >= 20) break;
        }
    });
}

} // namespace vh
