// The name tool, run as a process of its own: arguments or standard input in, text and exit status out.
#include "ref.hpp"
#define main name_tool_main
#include "../tools/name.cpp"
#undef main
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;

namespace {
struct Run { std::string out, err; int status = -1; bool exited = false; };
std::string slurp(int fd) {
    std::string r;
    off_t n = lseek(fd, 0, SEEK_END);
    r.resize(size_t(n));
    size_t at = 0;
    while (at < r.size()) { ssize_t k = pread(fd, &r[at], r.size() - at, off_t(at)); if (k <= 0) break; at += size_t(k); }
    return r;
}
int mem(const char* what) { int fd = memfd_create(what, 0); if (fd < 0) { perror("memfd_create"); abort(); } return fd; }
int child(const std::vector<std::string>& args) {
    std::vector<std::vector<char>> own;  // exact-size copies
    for (auto& a : args) { own.emplace_back(a.begin(), a.end()); own.back().push_back(0); own.back().shrink_to_fit(); }
    std::vector<const char*> argv;
    for (auto& a : own) argv.push_back(a.data());
    argv.push_back(nullptr);
    int r = name_tool_main(int(args.size()), argv.data());
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    return r;
}
Run run(const std::vector<std::string>& args, const std::string& in) {
    int fi = mem("in"), fo = mem("out"), fe = mem("err");
    size_t at = 0;
    while (at < in.size()) { ssize_t k = write(fi, in.data() + at, in.size() - at); if (k <= 0) abort(); at += size_t(k); }
    lseek(fi, 0, SEEK_SET);
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); abort(); }
    if (!p) {
        dup2(fi, 0);
        dup2(fo, 1);
        dup2(fe, 2);
        alarm(20);
        _exit(child(args));
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    Run r;
    r.exited = WIFEXITED(st);
    r.status = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    r.out = slurp(fo);
    r.err = slurp(fe);
    close(fi);
    close(fo);
    close(fe);
    return r;
}
std::string num_text(uint64_t v, pbt::Source& s) {
    char b[40];
    switch (s.below(4)) {
    case 0: snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); break;
    case 1: snprintf(b, sizeof b, "0X%llX", (unsigned long long)v); break;
    case 2: snprintf(b, sizeof b, "0%llo", (unsigned long long)v); break;
    default: snprintf(b, sizeof b, "%llu", (unsigned long long)v); break;
    }
    return b;
}
uint64_t gen_value(pbt::Source& s) {
    switch (s.below(4)) {
    case 0: return s.u64();
    case 1: return s.uint_bits(64);
    case 2: return s.pick({uint64_t(0), uint64_t(1), ~uint64_t(0), uint64_t(15), uint64_t(1) << 63, uint64_t(16)});
    default: return gen_name(s);
    }
}
struct Item { std::string text; bool ok; uint64_t v; };
// a value of the direction asked for, or something that is none
Item gen_item(pbt::Source& s, bool to_num) {
    Item i;
    i.v = gen_value(s);
    i.ok = true;
    if (to_num) {
        i.text = name_text(i.v);
        if (s.chance(1, 6)) while (i.text.size() < 12 && s.flip()) i.text += '.';
        if (s.chance(1, 5)) {  // damage
            switch (s.below(4)) {
            case 0: i.text += char("ABZ06789_ @"[s.below(11)]); break;
            case 1: while (i.text.size() < 13) i.text += "ab.5"[s.below(4)]; i.text += s.flip() ? "a" : "."; break;
            case 2: i.text.resize(std::min<size_t>(i.text.size(), 12)); while (i.text.size() < 12) i.text += 'z'; i.text += char('k' + s.below(16)); break;
            default: if (i.text.size()) i.text[s.below(i.text.size())] = "Aq6~k"[s.below(5)]; break;
            }
        }
        i.ok = name_value(i.text, i.v);
    } else {
        i.text = num_text(i.v, s);
        if (s.chance(1, 6)) {
            i.ok = false;
            switch (s.below(6)) {
            case 0: i.text = ""; break;
            case 1: { static const char* const tails[] = {"z", " ", "  ", "\t", ".", ",", "u", "ULL", "_", "h", "-", "+", "x", "y0", ".0", "p3", "\r"}; i.text += s.pick(tails); break; }
            case 2: i.text = "18446744073709551616"; break;
            case 3: i.text = "0x1" + std::string(16, "0123456789abcdef"[s.below(16)]); break;
            case 4: i.text = name_text(s.u64() | (uint64_t(6) << 59)); if (i.text.size() && (i.text[0] < 'a' || i.text[0] > 'z')) i.text = "x" + i.text; break;
            default: i.text = i.text + " " + i.text; break;
            }
        }
    }
    return i;
}
struct Opt { std::string text; };
}  // namespace

PROP(tool, 1) {
    auto& s = c.s;
    static const char* const progs[] = {"name2num", "num2name", "/usr/bin/name2num", "./num2name", "/opt/a b/bin/name2num"};
    size_t pi = s.below(5);
    bool to_num = pi == 0 || pi == 2 || pi == 4, hex = true, stop = false;
    std::vector<std::string> opts;
    for (size_t n = s.below(4); n; --n) {
        std::string o;
        switch (s.below(8)) {
        case 0: o = "--reverse"; to_num = !to_num; break;
        case 1: o = "--hex"; hex = true; break;
        case 2: o = "--dec"; hex = false; break;
        case 3: case 4: case 5: {
            o = "-";
            for (size_t k = 1 + s.below(3); k; --k) {
                char ch = "xdr"[s.below(3)];
                o += ch;
                if (ch == 'x') hex = true;
                else if (ch == 'd') hex = false;
                else to_num = !to_num;
            }
            break;
        }
        case 6: {
            if (!s.chance(1, 4)) { o = "-d"; hex = false; break; }
            static const char* const stops[] = {"-h", "--help", "-xh", "--nothing", "-q", "-dq", "--hexx", "--decimal", "-rh", "---", "--rev"};
            o = stops[s.below(11)];
            stop = true;
            break;
        }
        default: o = "-x"; hex = true; break;
        }
        opts.push_back(o);
    }
    bool via_stdin = s.chance(2, 5);
    std::vector<Item> items;
    for (size_t n = s.size(40) + (via_stdin ? 0 : 1); n; --n) items.push_back(gen_item(s, to_num));
    std::vector<std::string> args{progs[pi]};
    std::string in;
    if (via_stdin) {
        for (auto& o : opts) args.push_back(o);
        for (size_t i = 0; i < items.size(); ++i) { in += items[i].text; if (i + 1 < items.size() || items[i].text.empty() || !s.chance(1, 4)) in += '\n'; }
    } else {
        // options may stand between the values, and hold for all of them
        size_t oi = 0;
        for (auto& i : items) {
            while (oi < opts.size() && s.flip()) args.push_back(opts[oi++]);
            args.push_back(i.text);
        }
        while (oi < opts.size()) args.push_back(opts[oi++]);
        if (s.chance(1, 4)) in = "1\n2\n";  // not read
    }
    std::string want;
    bool all_ok = true, big = false;
    for (auto& i : items) {
        if (!i.ok) { all_ok = false; continue; }
        if (to_num) {
            char b[40];
            if (hex && i.v) snprintf(b, sizeof b, "0x%llx", (unsigned long long)i.v);
            else snprintf(b, sizeof b, "%llu", (unsigned long long)i.v);
            want += b;
        } else want += name_text(i.v);
        want += '\n';
        big = big || i.v > 9;
    }
    if (stop) want.clear();
    auto line = [&] {
        std::string r;
        for (auto& a : args) r += pbt::quote(a) + " ";
        return r + (in.empty() ? "" : "< " + pbt::quote(in));
    };
    c.note("command", line);
    c.key(line());
    if (big && !stop) c.nontrivial();
    c.label(stop ? "refused or help" : via_stdin ? "standard input" : "arguments");
    c.label(to_num ? (hex ? "name to hexadecimal" : "name to decimal") : "number to name");
    if (!all_ok && !stop) c.label("with invalid values");
    Run r = run(args, in);
    if (!r.exited) c.fail("died", "killed by signal " + std::to_string(r.status) + ": " + r.err);
    int code = stop ? 2 : all_ok ? 0 : 1;
    if (code == 2 ? r.status == 0 : r.status != code) c.fail("exit", "exit status " + std::to_string(r.status) + ", expected " + std::to_string(code) + "; errors: " + pbt::quote(r.err));
    if (r.out != want) c.fail("output", "prints " + pbt::quote(r.out) + " expected " + pbt::quote(want));
    if (r.err.empty() != (code == 0)) c.fail("message", code ? "no message for an invalid value or option" : "message " + pbt::quote(r.err));
    // back through the tool
    if (stop || via_stdin || !s.chance(1, 4)) return;
    std::vector<std::string> back{to_num ? "num2name" : "name2num", "-d"};
    std::string w2;
    size_t from = 0;
    for (auto& i : items) {
        if (!i.ok) continue;
        size_t nl = r.out.find('\n', from);
        std::string t = r.out.substr(from, nl - from);
        from = nl + 1;
        if (t.empty() || t[0] == '-') continue;
        back.push_back(t);
        w2 += to_num ? name_text(i.v) : std::to_string(i.v);
        w2 += '\n';
    }
    if (back.size() == 2) return;
    Run q = run(back, "");
    if (!q.exited || q.status != 0 || q.out != w2) c.fail("back", "converting back prints " + pbt::quote(q.out) + " expected " + pbt::quote(w2));
}
