// Runs the simulated scenarios: the real clazy code (plugin, standalone, clang-tidy module) inside one process
// under the simulator. One specification (JSON) describes one run completely.
#include "sim.h"

#include "clang-tidy/ClangTidy.h"
#include "clang-tidy/ClangTidyDiagnosticConsumer.h"
#include "clang-tidy/ClangTidyOptions.h"

#include <cstring>
#include <clang/Basic/DiagnosticOptions.h>
#include <clang/CodeGen/ObjectFilePCHContainerWriter.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/TextDiagnosticBuffer.h>
#include <clang/Frontend/TextDiagnosticPrinter.h>
#include <clang/FrontendTool/Utils.h>
#include <clang/Serialization/ObjectFilePCHContainerReader.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/TargetSelect.h>
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdlib>
#include <fcntl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using namespace clang;

int clazy_standalone_main(int argc, const char **argv);


namespace {

std::string g_resultPath; // real
json::Object *g_result = nullptr;
bool g_written = false;
std::string g_real, g_virtual;

int rawOpen(const std::string &p, int flags, int mode)
{
    return int(::syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, mode));
}
void rawWrite(int fd, const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) {
        long r = ::syscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (r <= 0)
            break;
        o += size_t(r);
    }
}
std::string realOf(const std::string &v)
{
    if (v.compare(0, g_virtual.size(), g_virtual) == 0)
        return g_real + v.substr(g_virtual.size());
    return v;
}
void rawMkdirs(const std::string &file)
{
    for (size_t i = g_real.size() + 1; i < file.size(); ++i)
        if (file[i] == '/')
            ::syscall(SYS_mkdir, file.substr(0, i).c_str(), 0755);
}
sim::Rng g_mtimeRng{1};
uint64_t g_mtime = 1600000000;
void rawPut(const std::string &vpath, const json::Value &v)
{
    const std::string p = realOf(vpath);
    rawMkdirs(p);
    if (auto o = v.getAsObject()) {
        if (auto l = o->getString("symlink")) {
            ::syscall(SYS_unlink, p.c_str());
            ::syscall(SYS_symlink, realOf(l->str()).c_str(), p.c_str());
        } else if (o->getBoolean("dir").value_or(false)) {
            ::syscall(SYS_mkdir, p.c_str(), 0755);
        } else if (o->getBoolean("remove").value_or(false)) {
            ::syscall(SYS_unlink, p.c_str());
        }
        return;
    }
    ::syscall(SYS_unlink, p.c_str());
    int fd = rawOpen(p, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    rawWrite(fd, v.getAsString().value_or("").str());
    // simulated modification times: a few files share each, as after a checkout
    timespec ts[2];
    g_mtime += g_mtimeRng.below(8) < 6 ? 0 : g_mtimeRng.below(3);
    ts[0] = ts[1] = {time_t(g_mtime), 0};
    ::syscall(SYS_utimensat, fd, nullptr, ts, 0);
    ::syscall(SYS_close, fd);
}

void writeResult(const char *end)
{
    if (g_written)
        return;
    g_written = true;
    json::Object &r = *g_result;
    const auto &sr = sim::schedResult();
    r["end"] = end;
    r["steps"] = int64_t(sr.steps);
    r["yields"] = int64_t(sr.yields);
    r["switches"] = int64_t(sr.switches);
    r["static_accesses"] = int64_t(sr.staticAccesses);
    r["hash"] = std::to_string(sr.hash);
    if (!sr.preemptions.empty()) {
        json::Array a;
        for (auto &p : sr.preemptions)
            a.push_back(json::Array{int64_t(p.first), p.second});
        r["preemptions"] = std::move(a);
    }
    json::Array races;
    for (auto &x : sr.races)
        races.push_back(json::Object{{"kind", x.kind}, {"t1", x.t1}, {"t2", x.t2}, {"pc1", int64_t(x.pc1)}, {"pc2", int64_t(x.pc2)}, {"addr", int64_t(x.addr)}, {"static", x.isStatic}});
    r["races"] = std::move(races);
    json::Array faults;
    for (auto &f : sim::fsFaults())
        faults.push_back(f.fired);
    r["fired"] = std::move(faults);
    json::Array ops;
    for (auto &o : sim::fsTrace())
        ops.push_back(json::Array{o.op, o.path, int64_t(o.result), o.err, o.fault});
    r["ops"] = std::move(ops);
    std::string s;
    {
        raw_string_ostream os(s);
        os << json::Value(std::move(r));
    }
    int fd = rawOpen(g_resultPath, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    rawWrite(fd, s);
    ::syscall(SYS_close, fd);
}

void abnormalEnd(const char *why)
{
    (*g_result)["abnormal"] = why;
    writeResult(why);
    ::syscall(SYS_exit_group, 78);
}

std::vector<std::string> strings(const json::Array *a)
{
    std::vector<std::string> r;
    if (a)
        for (auto &v : *a)
            r.push_back(v.getAsString().value_or("").str());
    return r;
}

struct Job {
    const json::Object *spec;
    json::Object out;
};
std::vector<std::vector<Job>> g_threads;

int countFds()
{
    int n = 0;
    for (int i = 0; i < 256; ++i)
        if (::syscall(SYS_fcntl, i, F_GETFD, 0) >= 0)
            ++n;
    return n;
}

std::string clean(const std::string &s)
{
    return json::fixUTF8(sim::fsUnmap(s));
}

void runCompile(Job &job)
{
    const json::Object &o = *job.spec;
    if (auto files = o.getObject("files"))
        for (auto &f : *files)
            rawPut(f.first.str(), f.second);

    std::vector<std::string> args = strings(o.getArray("args"));
    std::vector<const char *> argv;
    for (auto &a : args)
        argv.push_back(a.c_str());

    std::string text;
    bool ok = false;
    const int fdsBefore = countFds();
    {
        raw_string_ostream os(text);
        auto ci = std::make_unique<CompilerInstance>();
        auto pch = ci->getPCHContainerOperations();
        pch->registerWriter(std::make_unique<ObjectFilePCHContainerWriter>());
        pch->registerReader(std::make_unique<ObjectFilePCHContainerReader>());
        IntrusiveRefCntPtr<DiagnosticIDs> ids(new DiagnosticIDs());
        IntrusiveRefCntPtr<DiagnosticOptions> opts = new DiagnosticOptions();
        auto *buffer = new TextDiagnosticBuffer;
        DiagnosticsEngine diags(ids, opts, buffer);
        const bool parsed = CompilerInvocation::CreateFromArgs(ci->getInvocation(), argv, diags);
        ci->createDiagnostics(*vfs::getRealFileSystem(), new TextDiagnosticPrinter(os, &ci->getDiagnosticOpts()), true);
        ci->setVerboseOutputStream(os);
        buffer->FlushDiagnostics(ci->getDiagnostics());
        if (parsed)
            ok = ExecuteCompilerInvocation(ci.get());
        ci.reset();
        os.flush();
    }
    job.out["ok"] = ok;
    job.out["diag"] = clean(text);
    job.out["fdleak"] = countFds() - fdsBefore;
}

void threadBody(int id, void *)
{
    for (auto &j : g_threads[id])
        runCompile(j);
}

json::Object tidyRun(const json::Object &o)
{
    using namespace clang::tidy;
    if (auto files = o.getObject("files"))
        for (auto &f : *files)
            rawPut(f.first.str(), f.second);
    ClangTidyGlobalOptions global;
    ClangTidyOptions opts = ClangTidyOptions::getDefaults();
    opts.Checks = o.getString("checks").value_or("-*,clazy-*").str();
    opts.HeaderFilterRegex = ".*";
    auto provider = std::make_unique<DefaultOptionsProvider>(global, opts);
    ClangTidyContext ctx(std::move(provider), false, false);
    auto args = strings(o.getArray("args"));
    tooling::FixedCompilationDatabase db(o.getString("dir").value_or(".").str(), args);
    auto base = IntrusiveRefCntPtr<vfs::OverlayFileSystem>(new vfs::OverlayFileSystem(vfs::getRealFileSystem()));
    std::vector<std::string> files = strings(o.getArray("srcs"));
    auto errors = runClangTidy(ctx, db, files, base, false);
    json::Array diags;
    for (auto &e : errors) {
        json::Array fixes, notes;
        auto addFixes = [&](const tooling::DiagnosticMessage &m, json::Array &a) {
            for (auto &f : m.Fix)
                for (auto &r : f.second)
                    a.push_back(json::Array{clean(r.getFilePath().str()), int64_t(r.getOffset()), int64_t(r.getLength()), json::fixUTF8(r.getReplacementText())});
        };
        addFixes(e.Message, fixes);
        for (auto &n : e.Notes) {
            json::Array nf;
            addFixes(n, nf);
            notes.push_back(json::Array{clean(n.FilePath), int64_t(n.FileOffset), json::fixUTF8(n.Message), std::move(nf)});
        }
        json::Array aliases; // clang-tidy merges equal diagnostics of different checks
        for (auto &a : e.EnabledDiagnosticAliases)
            aliases.push_back(a);
        diags.push_back(json::Object{{"aliases", std::move(aliases)}, {"check", e.DiagnosticName}, {"file", clean(e.Message.FilePath)}, {"offset", int64_t(e.Message.FileOffset)}, {"msg", json::fixUTF8(e.Message.Message)}, {"level", int64_t(e.DiagLevel)}, {"fixes", std::move(fixes)}, {"notes", std::move(notes)}});
    }
    return json::Object{{"diags", std::move(diags)}};
}

std::string slurp(const std::string &p)
{
    std::string s;
    int fd = rawOpen(p, O_RDONLY, 0);
    if (fd < 0)
        return s;
    char b[65536];
    long n;
    while ((n = ::syscall(SYS_read, fd, b, sizeof b)) > 0)
        s.append(b, size_t(n));
    ::syscall(SYS_close, fd);
    return s;
}

void runSpec(const std::string &specPath)
{
    auto parsed = json::parse(slurp(specPath));
    if (!parsed) {
        rawWrite(2, "bad spec: " + toString(parsed.takeError()) + "\n");
        _exit(95);
    }
    static json::Value spec = std::move(*parsed);
    const json::Object &o = *spec.getAsObject();
    g_result = new json::Object();
    g_resultPath = o.getString("result")->str();
    g_real = o.getString("real")->str();
    g_virtual = o.getString("virtual")->str();
    sim::onAbnormalEnd = abnormalEnd;

    // standard streams to files
    {
        int in = rawOpen("/dev/null", O_RDONLY, 0);
        ::syscall(SYS_dup2, in, 0);
        ::syscall(SYS_close, in);
        for (int i = 1; i <= 2; ++i) {
            int fd = rawOpen(o.getString(i == 1 ? "stdout" : "stderr")->str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
            ::syscall(SYS_dup2, fd, i);
            ::syscall(SYS_close, fd);
        }
    }
    if (auto files = o.getObject("files"))
        for (auto &f : *files)
            rawPut(f.first.str(), f.second);
    {
        std::string cwd = realOf(o.getString("cwd").value_or(g_virtual).str());
        ::syscall(SYS_chdir, cwd.c_str());
        std::string v = o.getString("cwd").value_or(g_virtual).str();
        setenv("PWD", v.c_str(), 1);
    }
    if (auto env = o.getObject("env"))
        for (auto &e : *env)
            setenv(e.first.str().c_str(), e.second.getAsString().value_or("").str().c_str(), 1);

    std::vector<sim::Fault> faults;
    if (auto fa = o.getArray("faults"))
        for (auto &f : *fa) {
            const json::Object &x = *f.getAsObject();
            sim::Fault t;
            t.op = x.getString("op").value_or("any").str();
            t.path = x.getString("path").value_or("").str();
            t.nth = int(x.getInteger("nth").value_or(0));
            t.times = int(x.getInteger("times").value_or(1));
            t.act = x.getString("act").value_or("EIO").str();
            t.arg = int(x.getInteger("arg").value_or(0));
            faults.push_back(t);
        }
    int gin = int(o.getInteger("gate_in").value_or(-1)), gout = int(o.getInteger("gate_out").value_or(-1));
    sim::fsConfigure(g_virtual, g_real, faults, gin, gout);
    sim::fsRecord(o.getBoolean("record").value_or(false));
    sim::envConfigure(uint64_t(o.getInteger("env_seed").value_or(1)));
    g_mtimeRng.s = uint64_t(o.getInteger("env_seed").value_or(1)) * 2 + 1;
    sim::schedSetBudget(uint64_t(o.getInteger("max_steps").value_or(0)));
    if (auto a = o.getObject("alloc")) {
        sim::AllocConfig c;
        c.mode = int(a->getInteger("mode").value_or(0));
        c.seed = uint64_t(a->getInteger("seed").value_or(1));
        c.fillNew = int(a->getInteger("new").value_or(-1));
        c.fillFreed = int(a->getInteger("freed").value_or(-1));
        c.stack = int(a->getInteger("stack").value_or(-1));
        sim::allocConfigure(c);
    }
    ::alarm(unsigned(o.getInteger("timeout").value_or(120)));

    const std::string kind = o.getString("kind")->str();
    if (kind == "standalone") {
        static std::vector<std::string> args = strings(o.getArray("argv"));
        static std::vector<const char *> argv;
        for (auto &a : args)
            argv.push_back(a.c_str());
        argv.push_back(nullptr);
        // the real process ends with exit(), running the destructors of statics
        std::atexit([] { writeResult("exit"); });
        int r = clazy_standalone_main(int(args.size()), argv.data());
        (*g_result)["returned"] = r;
        std::string which;
        if (sim::scratchFdsOpen(which))
            (*g_result)["fdleak"] = which;
        exit(r);
    }
    if (kind == "plugin") {
        for (auto &t : *o.getArray("threads")) {
            std::vector<Job> jobs;
            for (auto &j : *t.getAsArray())
                jobs.push_back(Job{j.getAsObject(), {}});
            g_threads.push_back(std::move(jobs));
        }
        const bool sched = o.getObject("sched") != nullptr;
        if (!sched) {
            for (size_t i = 0; i < g_threads.size(); ++i)
                threadBody(int(i), nullptr);
        } else {
            const json::Object &s = *o.getObject("sched");
            sim::SchedConfig c;
            c.seed = uint64_t(s.getInteger("seed").value_or(1));
            c.strategy = int(s.getInteger("strategy").value_or(0));
            c.pStatic = uint32_t(s.getInteger("pstatic").value_or(0));
            c.pOther = uint32_t(s.getInteger("pother").value_or(0));
            c.nChange = uint32_t(s.getInteger("nchange").value_or(0));
            c.horizon = uint64_t(s.getInteger("horizon").value_or(0));
            c.races = s.getBoolean("races").value_or(true);
            if (auto r = s.getArray("replay"))
                for (auto &p : *r)
                    c.replay.push_back({uint64_t((*p.getAsArray())[0].getAsInteger().value_or(0)), int((*p.getAsArray())[1].getAsInteger().value_or(0))});
            std::vector<void (*)(int, void *)> bodies(g_threads.size(), threadBody);
            sim::runThreads(c, bodies, nullptr);
        }
        json::Array ta;
        for (auto &t : g_threads) {
            json::Array ja;
            for (auto &j : t)
                ja.push_back(std::move(j.out));
            ta.push_back(std::move(ja));
        }
        (*g_result)["threads"] = std::move(ta);
        std::atexit([] { writeResult("exit"); });
        exit(0);
    }
    if (kind == "tidy") {
        // one process may run clang-tidy several times
        json::Array runs;
        for (auto &r : *o.getArray("runs"))
            runs.push_back(tidyRun(*r.getAsObject()));
        (*g_result)["tidy"] = std::move(runs);
        std::atexit([] { writeResult("exit"); });
        exit(0);
    }
    _exit(94);
}
} // namespace

int main(int argc, char **argv, char **envp)
{
    if (argc >= 2 && !getenv("CLAZYSIM_PERS")) {
        // same addresses in every process, where permitted
        setenv("CLAZYSIM_PERS", "1", 1);
        if (::personality(ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    InitializeAllTargets();
    InitializeAllTargetMCs();
    InitializeAllAsmPrinters();
    InitializeAllAsmParsers();
    if (argc >= 3 && !strcmp(argv[1], "run")) {
        runSpec(argv[2]);
        return 0;
    }
    if (argc >= 2 && !strcmp(argv[1], "zygote")) {
        // reads lines "<spec path>" and answers "<pid> <wait status>"
        // no heap is used here: a run has to find the same heap as in a process of its own
        static char line[4096];
        char ch;
        for (;;) {
            size_t n = 0;
            long r;
            while ((r = ::syscall(SYS_read, 0, &ch, 1)) == 1 && ch != '\n' && n + 1 < sizeof(line))
                line[n++] = ch;
            line[n] = 0;
            if (r != 1)
                return 0;
            pid_t p = fork();
            if (p == 0) {
                struct rlimit rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                runSpec(line);
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            static char a[32];
            int k = snprintf(a, sizeof(a), "%d\n", st);
            long unused = ::syscall(SYS_write, 1, a, size_t(k));
            (void)unused;
        }
    }
    if (argc >= 2 && !strcmp(argv[1], "multi")) {
        // several gated processes run side by side: "multi spec1 spec2 ...", the conductor talks through descriptors
        // given in the specifications
        std::vector<pid_t> ps;
        for (int i = 2; i < argc; ++i) {
            pid_t p = fork();
            if (p == 0) {
                runSpec(argv[i]);
                _exit(0);
            }
            ps.push_back(p);
        }
        int rc = 0;
        for (auto p : ps) {
            int st = 0;
            waitpid(p, &st, 0);
            rc |= st;
        }
        return rc ? 1 : 0;
    }
    return 2;
}
