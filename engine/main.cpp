// symx: command line driver.
//   symx --bc a.bc [--bc b.bc] --entry f --out DIR [--param k=v] [--jobs n] [--time s] ...
#include "executor.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
using namespace llvm;

static std::string jesc(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void writeResult(Exec &X, const std::string &path)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror("out"); _exit(3); }
    auto &st = X.S.st;
    fprintf(f, "{\"paths\":%lu,\"killed\":%lu,\"instrs\":%lu,\"forks\":%lu,\"asserts\":%lu,\"queries\":%lu,\"z3_queries\":%lu,\"z3_assert\":%lu,\"cache_hits\":%lu,\"fd\":%lu,\"unknown\":%lu,\"z3_time\":%.3f,\"time\":%.3f,\n",
            X.paths, X.killed, X.instrs, X.forks, X.asserts, st.queries, st.z3_queries, st.z3_assert, st.cache_hits, st.fd_decided, st.unknown, st.z3_time, nowSec() - X.t0);
    auto ins = [&](const std::vector<std::pair<std::string, std::string>> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + ("[" + jesc(v[i].first) + "," + jesc(v[i].second) + "]");
        return r + "]";
    };
    fprintf(f, "\"violations\":[");
    for (size_t i = 0; i < X.viols.size(); ++i)
    {
        auto &v = X.viols[i];
        fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"soft\":%s,\"inputs\":%s,\"stack\":[", i ? ",\n" : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(),
                v.soft ? "true" : "false", ins(v.inputs).c_str());
        for (size_t k = 0; k < v.stack.size(); ++k) fprintf(f, "%s%s", k ? "," : "", jesc(v.stack[k]).c_str());
        fprintf(f, "]}");
    }
    fprintf(f, "],\n\"samples\":[");
    for (size_t i = 0; i < X.samples.size(); ++i)
    {
        fprintf(f, "%s{\"inputs\":%s,\"obs\":[", i ? ",\n" : "", ins(X.samples[i].inputs).c_str());
        for (size_t k = 0; k < X.samples[i].obs.size(); ++k) fprintf(f, "%s%lu", k ? "," : "", X.samples[i].obs[k]);
        fprintf(f, "]}");
    }
    fprintf(f, "],\n\"reached\":[");
    int n = 0;
    for (auto &r : X.reached) fprintf(f, "%s%s", n++ ? "," : "", jesc(r).c_str());
    fprintf(f, "],\n\"incomplete\":{");
    n = 0;
    for (auto &r : X.incomplete) fprintf(f, "%s%s:%lu", n++ ? "," : "", jesc(r.first).c_str(), r.second);
    fprintf(f, "},\n\"functions\":[");
    std::set<std::string> cov;
    X.coverage(cov);
    n = 0;
    for (auto &r : cov) fprintf(f, "%s%s", n++ ? "," : "", jesc(r).c_str());
    fprintf(f, "]}\n");
    fclose(f);
}

int main(int argc, char **argv)
{
    Options o;
    std::vector<std::string> bcs;
    std::string entry, out = "/tmp";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx       = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(3); } return argv[++i]; };
        if (a == "--bc") bcs.push_back(nx());
        else if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--param") { auto p = nx(); auto e = p.find('='); o.params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0); }
        else if (a == "--jobs") o.jobs = std::stoul(nx());
        else if (a == "--time") o.time = std::stod(nx());
        else if (a == "--max-instr") o.maxInstr = std::stoull(nx());
        else if (a == "--max-depth") o.maxDepth = std::stoull(nx());
        else if (a == "--alloc-limit") o.allocLimit = std::stoull(nx());
        else if (a == "--sym-alloc") o.symAlloc = std::stoull(nx());
        else if (a == "--solver-ms") o.solverMs = std::stoul(nx());
        else if (a == "--samples") o.samples = std::stoul(nx());
        else if (a == "--list") entry = "?";
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (auto &b : bcs)
    {
        auto m = parseIRFile(b, err, ctx);
        if (!m) { err.print("symx", errs()); return 3; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed\n"); return 3; }
    }
    if (entry == "?")
    {
        for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("test_")) printf("%s\n", f.getName().str().c_str());
        return 0;
    }
    Function *F = M->getFunction(entry);
    if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    Exec X(*M, o);
    State *s = X.initial(F);
    if (!s) { X.incomplete["start-up failed"]++; writeResult(X, out + "/r0.json"); return 0; }
    X.t0 = nowSec();
    X.work.push_back(s);
    // breadth first until there is enough work to share
    const size_t want = o.jobs > 1 ? 48 * o.jobs : 0;
    double bfsEnd     = nowSec() + 4;
    while (!X.work.empty() && X.work.size() < want && nowSec() < bfsEnd)
    {
        State *t = X.work.front();
        X.work.pop_front();
        X.runPath(t);
    }
    if (o.jobs <= 1)
    {
        while (!X.work.empty() && !X.timeUp())
        {
            State *t = X.work.back();
            X.work.pop_back();
            X.runPath(t);
        }
        if (!X.work.empty()) X.incomplete["time limit"]++;
        writeResult(X, out + "/r0.json");
        return 0;
    }
    struct Shared { std::atomic<size_t> next; std::atomic<int> hard; };
    auto *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared{{0}, {0}};
    std::vector<State *> todo(X.work.begin(), X.work.end());
    X.work.clear();
    auto hard = [](Exec &x) { int n = 0; for (auto &v : x.viols) n += !v.soft; return n; };
    sh->hard  = hard(X);
    fflush(stdout);
    std::vector<pid_t> kids;
    if (!todo.empty())
        for (unsigned j = 0; j < o.jobs; ++j)
        {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 3; }
            if (p == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                // results of the shared prefix are reported by the parent
                X.viols.clear(); X.samples.clear(); X.incomplete.clear();
                X.paths = X.killed = X.instrs = X.forks = X.asserts = 0;
                X.S.st = SolverStats{};
                int seen = 0;
                for (;;)
                {
                    size_t k = sh->next++;
                    if (k >= todo.size()) break;
                    X.work.push_back(todo[k]);
                    while (!X.work.empty() && !X.timeUp())
                    {
                        if (sh->hard >= (int)o.maxViol) break;
                        State *t = X.work.back();
                        X.work.pop_back();
                        X.runPath(t);
                        int h = hard(X);
                        if (h > seen) { sh->hard += h - seen; seen = h; }
                    }
                    if (!X.work.empty()) { X.incomplete[X.timeUp() ? "time limit" : "stopped after violations"]++; break; }
                }
                writeResult(X, out + "/r" + std::to_string(j + 1) + ".json");
                fflush(nullptr);
                _exit(0);
            }
            kids.push_back(p);
        }
    int bad = 0;
    for (auto p : kids)
    {
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad;
    }
    if (bad) X.incomplete["worker died"] += bad;
    writeResult(X, out + "/r0.json");
    fflush(nullptr);
    _exit(0);
}
