#include "pbt.hpp"

using namespace pbt;

namespace {

enum Kind { Ok = 0, Prop = 1, Crash = 2, Hang = 3, Disc = 4 };
const int exitProp = 10, exitHang = 97;

Shared* g_sh = nullptr;

void onCpuLimit(int)
{
    static const char m[] = "per-case CPU limit exceeded (computation does not terminate)\n";
    if (g_sh != nullptr) {
        std::memcpy(g_sh->msg, m, sizeof m);
        g_sh->msgLen = sizeof m - 1;
    }
    ssize_t ignored = write(2, m, sizeof m - 1);
    (void) ignored;
    _exit(exitHang);
}

void armCpu(long sec)
{
    itimerval t{};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}

double wall()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

Shared* mapShared(const char* path)
{
    void* p;
    if (path != nullptr) {
        const int fd = open(path, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("shared"); std::exit(3); }
        p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    if (p == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return static_cast<Shared*>(p);
}

std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') { o += "\\n"; }
        else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else { o += ch; }
    }
    return o;
}

std::uint64_t hashChoices(const Shared* sh)
{
    std::uint64_t h = 1469598103934665603ULL;
    const std::uint64_t n = std::min(sh->count, Shared::cap);
    for (std::uint64_t i = 0; i < n; ++i) { h = mix64(h ^ sh->choice[i]) + i; }
    return h;
}

// Executes one case; returns Ok, Prop or Disc.
Kind runCase(Case& c, std::string& msg)
{
    try { pbt_property(c); return Ok; }
    catch (const Discard&) { return Disc; }
    catch (const Fail& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { msg = "unexpected non-standard exception"; }
    return Prop;
}

void setMsg(Shared* sh, const std::string& m)
{
    sh->msgLen = std::min<std::size_t>(m.size(), sizeof sh->msg - 1);
    std::memcpy(sh->msg, m.data(), sh->msgLen);
    sh->msg[sh->msgLen] = 0;
}

long cpuLimit = 20;
bool thorough = false;

// Runs the choices in a forked child.
Kind tryForked(const std::vector<std::uint64_t>& in, Shared* sh, bool quiet, std::string* desc = nullptr)
{
    sh->count = 0; sh->msgLen = 0; sh->msg[0] = 0;
    int pfd[2];
    if (pipe(pfd) != 0) { perror("pipe"); std::exit(3); }
    std::cout.flush();
    const pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        if (quiet) { const int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
        g_sh = sh;
        signal(SIGPROF, onCpuLimit);
        armCpu(cpuLimit);
        Src s(&in, sh);
        Case c(s);
        c.thorough = thorough;
        c.wantDesc = desc != nullptr;
        std::string msg;
        const Kind k = runCase(c, msg);
        armCpu(0);
        setMsg(sh, msg);
        if (desc != nullptr) { ssize_t w = write(pfd[1], c.desc.data(), std::min<std::size_t>(c.desc.size(), 60000)); (void) w; }
        _exit(k == Prop ? exitProp : (k == Disc ? 11 : 0));
    }
    close(pfd[1]);
    if (desc != nullptr) {
        char buf[4096]; ssize_t r;
        while ((r = read(pfd[0], buf, sizeof buf)) > 0) { desc->append(buf, r); }
    }
    close(pfd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) {
        const int e = WEXITSTATUS(st);
        if (e == 0) { return Ok; }
        if (e == exitProp) { return Prop; }
        if (e == 11) { return Disc; }
        if (e == exitHang) { return Hang; }
        return Crash;
    }
    return Crash;
}

std::vector<std::uint64_t> readChoices(const std::string& f)
{
    std::ifstream is(f);
    std::vector<std::uint64_t> v;
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') { continue; }
        std::istringstream ls(line);
        std::uint64_t x;
        while (ls >> x) { v.push_back(x); }
    }
    return v;
}

void writeChoices(const std::string& f, const std::vector<std::uint64_t>& v, const std::string& head)
{
    std::ofstream os(f);
    std::istringstream h(head);
    std::string l;
    while (std::getline(h, l)) { os << "# " << l << '\n'; }
    for (std::size_t i = 0; i < v.size(); ++i) { os << v[i] << ((i % 24 == 23) ? '\n' : ' '); }
    os << '\n';
}

const char* kindName(Kind k)
{
    switch (k) {
    case Ok: return "ok"; case Prop: return "property"; case Crash: return "crash";
    case Hang: return "hang"; case Disc: return "discard";
    }
    return "?";
}

int cmdShrink(const std::string& in, const std::string& out, double budget)
{
    Shared* sh = mapShared(nullptr);
    auto best = readChoices(in);
    const Kind want = tryForked(best, sh, true);
    if (want == Ok || want == Disc) { std::cout << "NOREPRO\n"; return 4; }
    auto norm = [&]() {
        const auto n = std::min(sh->count, Shared::cap);
        return std::vector<std::uint64_t>(sh->choice, sh->choice + n);
    };
    if (want != Crash && sh->count <= Shared::cap) { auto v = norm(); if (v.size() <= best.size()) best = v; }
    const double t0 = wall();
    long tries = 0;
    auto left = [&] { return wall() - t0 < budget; };
    auto attempt = [&](const std::vector<std::uint64_t>& cand) {
        ++tries;
        if (tryForked(cand, sh, true) != want) { return false; }
        auto used = norm();
        best = (used.size() < cand.size()) ? used : cand;
        return true;
    };
    bool progress = want != Hang;
    while (progress && left()) {
        progress = false;
        // Delete chunks.
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && left(); len /= 2) {
            for (std::size_t pos = 0; pos + len <= best.size() && left();) {
                auto cand = best;
                cand.erase(cand.begin() + pos, cand.begin() + pos + len);
                if (attempt(cand)) { progress = true; } else { pos += len; }
            }
            if (len == 1) { break; }
        }
        // Zero chunks.
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && left(); len /= 2) {
            for (std::size_t pos = 0; pos + len <= best.size() && left(); pos += len) {
                bool any = false;
                for (std::size_t i = pos; i < pos + len; ++i) { any = any || best[i] != 0; }
                if (!any) { continue; }
                auto cand = best;
                std::fill(cand.begin() + pos, cand.begin() + pos + len, 0);
                if (attempt(cand)) { progress = true; }
            }
            if (len == 1) { break; }
        }
        // Lower single values.
        for (std::size_t i = 0; i < best.size() && left(); ++i) {
            std::uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && left()) {
                auto cand = best;
                const std::uint64_t mid = lo + (best[i] - lo) / 2;
                cand[i] = mid;
                if (attempt(cand)) { progress = true; } else { lo = mid + 1; }
            }
        }
    }
    std::string desc;
    const Kind fin = tryForked(best, sh, true, &desc);
    std::string msg(sh->msg, sh->msgLen);
    std::ostringstream head;
    head << "property " << pbt_property_id << "\nkind " << kindName(fin) << "\nmessage " << msg << "\nshrink attempts " << tries
         << "\ncase:\n" << desc << "\nchoices:";
    writeChoices(out, best, head.str());
    std::cout << "SHRUNK kind=" << kindName(fin) << " choices=" << best.size() << " attempts=" << tries << '\n'
              << msg << '\n' << desc << '\n';
    return 0;
}

int cmdReplay(const std::string& in, int times)
{
    Shared* sh = mapShared(nullptr);
    const auto v = readChoices(in);
    int bad = 0;
    for (int i = 0; i < times; ++i) {
        const Kind k = tryForked(v, sh, i + 1 < times);
        if (k != Ok && k != Disc) { ++bad; }
        std::cout << "replay " << i << ": " << kindName(k) << ' ' << std::string(sh->msg, sh->msgLen) << '\n';
    }
    return bad == times ? 10 : (bad > 0 ? 12 : 0);
}

int cmdRun(std::uint64_t seed, std::uint64_t stream, std::uint64_t cases, const std::string& outp, double maxWall, std::uint64_t firstOnly)
{
    Shared* sh = mapShared((outp + ".cur").c_str());
    g_sh = sh;
    signal(SIGPROF, onCpuLimit);
    std::uint64_t base = mix64(seed * 1000003ULL + stream * 7919ULL);
    for (const char* p = pbt_property_id; *p; ++p) { base = mix64(base ^ static_cast<unsigned char>(*p)); }

    std::uint64_t done = 0, nontriv = 0, disc = 0;
    std::map<std::string, std::uint64_t> labels;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    const double t0 = wall();
    bool truncated = false;
    int rc = 0;
    for (std::uint64_t i = 0; i < cases && i < firstOnly; ++i) {
        if ((i & 15) == 0 && wall() - t0 > maxWall) { truncated = true; break; }
        sh->phase = 1; sh->caseIndex = i; sh->count = 0; sh->msgLen = 0;
        Src s(mix64(base + i), sh);
        Case c(s);
        c.thorough = thorough;
        c.wantDesc = samples.size() < 4 && i < 400;
        std::string msg;
        armCpu(cpuLimit);
        const Kind k = runCase(c, msg);
        armCpu(0);
        ++done;
        if (k == Disc) { ++disc; continue; }
        for (const auto& l : c.labels) { ++labels[l]; }
        if (k == Prop) {
            setMsg(sh, msg);
            std::ofstream f(outp + ".fail");
            f << msg << '\n';
            rc = exitProp;
            break;
        }
        if (c.nontrivial) {
            ++nontriv;
            distinct.insert(hashChoices(sh));
            if (c.wantDesc && !c.desc.empty() && (samples.empty() || i % 7 == 0)) { samples.push_back(c.desc.substr(0, 1500)); }
        }
    }
    sh->phase = 0;
    std::ofstream os(outp + ".json");
    os << "{\"cases\":" << done << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc
       << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"wall\":" << (wall() - t0) << ",\"labels\":{";
    bool first = true;
    for (const auto& l : labels) { os << (first ? "" : ",") << '"' << jesc(l.first) << "\":" << l.second; first = false; }
    os << "},\"samples\":[";
    first = true;
    for (const auto& x : samples) { os << (first ? "" : ",") << '"' << jesc(x) << '"'; first = false; }
    os << "],\"rule\":\"" << jesc(pbt_rule) << "\"}\n";
    std::ofstream hs(outp + ".hash", std::ios::binary);
    for (auto h : distinct) { hs.write(reinterpret_cast<const char*>(&h), sizeof h); }
    return rc;
}

} // namespace

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    static Shared* sh = mapShared(std::getenv("PBT_SHARED"));
    sh->count = 0;
    Src s(data, size, sh);
    Case c(s);
    c.thorough = false;
    std::string msg;
    if (runCase(c, msg) == Prop) {
        std::fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
        std::abort();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    std::map<std::string, std::string> o;
    const std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) { o[argv[i]] = argv[i + 1]; }
    auto num = [&](const char* k, double d) { return o.count(k) ? std::strtod(o[k].c_str(), nullptr) : d; };
    cpuLimit = static_cast<long>(num("--cpu", 20));
    thorough = num("--thorough", 0) != 0;
    if (cmd == "run") {
        return cmdRun(static_cast<std::uint64_t>(num("--seed", 1)), static_cast<std::uint64_t>(num("--stream", 0)),
                      static_cast<std::uint64_t>(num("--cases", 1000)), o["--out"], num("--maxwall", 1e9),
                      static_cast<std::uint64_t>(num("--first", 1e18)));
    }
    if (cmd == "shrink") { return cmdShrink(o["--in"], o["--out"], num("--budget", 40)); }
    if (cmd == "replay") { return cmdReplay(o["--in"], static_cast<int>(num("--times", 3))); }
    if (cmd == "rule") { std::cout << pbt_rule << '\n'; return 0; }
    std::cerr << "usage: run|shrink|replay\n";
    return 3;
}
#endif
