// generator of shell commands with known stdout, stderr and exit status (POSIX sh subset)
#pragma once
#include "cmdr11/cmdr_common.hh"
#include "cmdr11/cmdr_process.hh"
#include "common.h"
#include <csignal>
#include <iterator>
#include <sstream>
namespace ex {
  struct Cmd {
    std::string text, out, err;
    int rc = 0;
    bool killed = false;   // the shell itself ended by a signal
    bool message = false;  // the shell adds an error message to stderr
  };
  inline std::string payload(bool longer) {
    static char const *const words[] = {"alpha", "beta gamma", "%s %d", "a;b", "$HOME", "x=1", "\"quoted\"", "# no comment", "`tick`", "2>&1", "|", "&&", "-n", "\\n"};
    std::string s;
    for (int n = 1 + (int) sim::choose(longer ? 60 : 4, "words"); n-- > 0;) s += words[sim::choose(14, "word")];
    return s;
  }
  // appends a command to c; returns false when the shell has ended
  inline bool atom(Cmd &c, std::string &t, bool allow_end, bool allow_big, bool longer) {
    switch (sim::choose(13, "atom")) {
      case 12: {  // a child ended by a signal
        static const int sig[] = {9, 15, 13};
        int const n = sig[sim::choose(3, "signal")];
        signal(n, SIG_DFL);
        t += "sh -c 'kill -" + std::to_string(n) + " $$' 2>/dev/null";
        c.rc = 128 + n;
        return true;
      }
      case 1: {
        std::string p = payload(longer);
        t += "printf '%s' '" + p + "' >&2";
        c.err += p;
        c.rc = 0;
        return true;
      }
      case 2: {
        static const int codes[] = {1, 2, 3, 7, 77, 126, 127, 128, 137, 255};
        int const n = codes[sim::choose(10, "code")];
        t += "(exit " + std::to_string(n) + ")";
        c.rc = n;
        return true;
      }
      case 3:
        if (!allow_end) break;
        {
          int const n = (int) sim::choose(256, "exit");
          t += "exit " + std::to_string(n);
          c.rc = n;
          return false;
        }
      case 4:
        t += "printf '\\000\\377\\001\\012\\015'";
        c.out += std::string("\0\377\1\n\r", 5);
        c.rc = 0;
        return true;
      case 5: {
        int const n = allow_big && sim::chance(300, "big") ? 1000 + (int) sim::choose(150000, "bytes") : 1 + (int) sim::choose(300, "bytes");
        bool const e = sim::choose(3, "to-stderr") == 1;
        t += "{ head -c " + std::to_string(n) + " /dev/zero | tr '\\000' z; }" + (e ? " >&2" : "");
        (e ? c.err : c.out) += std::string((size_t) n, 'z');
        c.rc = 0;
        return true;
      }
      case 6: {
        std::string p = payload(false);
        t += "{ printf '%s' '" + p + "'; printf '%s' '" + p + "' >&2; }";
        c.out += p;
        c.err += p;
        c.rc = 0;
        return true;
      }
      case 7: {
        std::string p = payload(false);
        t += "printf '%s' '" + p + "' | cat";
        c.out += p;
        c.rc = 0;
        return true;
      }
      case 8:
        t += "false";
        c.rc = 1;
        return true;
      case 9:
        if (!allow_end) break;
        {
          static const int sig[] = {9, 15, 1, 2, 3, 6, 10, 13, 14};
          int const n = sig[sim::choose(9, "signal")];
          signal(n, SIG_DFL);  // (whatever this process has inherited)
          t += "kill -" + std::to_string(n) + " $$";
          c.rc = -1;
          c.killed = true;
          return false;
        }
      case 10: {
        std::string p = payload(false);
        t += "( printf '%s' '" + p + "' >&2; exit 5 )";
        c.err += p;
        c.rc = 5;
        return true;
      }
      default: break;
    }
    std::string p = payload(longer);
    t += "printf '%s' '" + p + "'";
    c.out += p;
    c.rc = 0;
    return true;
  }
  inline Cmd gen(bool allow_big) {
    Cmd c;
    bool const longer = sim::chance(250, "long-command");
    bool alive = true, skipped = false;
    for (int n = 1 + (int) sim::choose(5, "atoms"); n-- > 0 && alive;) {
      if (!c.text.empty()) {
        // connectors: the skipped side must not change the expectation
        switch (sim::choose(4, "conn")) {
          case 1: c.text += "\n"; break;
          case 2:
            c.text += " && ";
            skipped = c.rc != 0;
            break;
          case 3:
            c.text += " || ";
            skipped = c.rc == 0;
            break;
          default: c.text += "; ";
        }
      }
      if (skipped) {
        Cmd dummy;
        dummy.rc = c.rc;
        std::string t;
        atom(dummy, t, false, false, false);
        c.text += t;
        skipped = false;
        // `a && b` skipped keeps a's status; a following `||` looks at it as well
      } else {
        alive = atom(c, c.text, true, allow_big, longer);
      }
    }
    if (alive) switch (sim::choose(8, "tail")) {
        case 5: {  // not a command: the shell runs the lines before and says what is wrong
          static char const *const bad[] = {"if", "echo )", "for", "case x", "( true"};
          c.text += std::string("\n") + bad[sim::choose(5, "bad")] + "\n";
          c.rc = 2;
          c.message = true;
          sim::cover("syntax-error");
          break;
        }
        case 6: c.text += " \\\n"; break;  // a line continuation at the end
        case 1: c.text += " # a comment"; break;
        case 2: c.text += "\n"; break;
        case 3: c.text += ";"; break;
        case 4: {
          c.text += "\ncat <<EOF_X >&2\nhere document\nEOF_X\n";
          c.err += "here document\n";
          c.rc = 0;
          break;
        }
        default: break;
      }
    if (c.text.size() > 480) sim::cover("long-command");
    if (c.killed) sim::cover("killed-by-signal");
    return c;
  }
  inline std::string slurp(std::istream &s) { return std::string(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>()); }
  inline void diff(char const *what, std::string const &got, std::string const &want, Cmd const &c, bool more = false) {
    if (got == want && !more) return;
    if (more && got.size() > want.size() && got.compare(0, want.size(), want) == 0) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    sim::fail(what, "%s: %zu bytes captured, %zu written, first difference at %zu; command (%zu chars): %.300s", what, got.size(), want.size(), i, c.text.size(), c.text.c_str());
  }
  inline std::string read_stdout(cmdr::process::exec &e) {
    switch (sim::choose(3, "read-how")) {
      case 1: {
        std::string r;
        char b[97];
        while (e.read(b, sizeof b) || e.gcount() > 0) r.append(b, (size_t) e.gcount());
        return r;
      }
      case 2: {
        std::ostringstream os;
        os << e;
        return os.str();
      }
      default: return slurp(e);
    }
  }
  inline void only_soft_faults() {
    for (char const *n: {"open", "fclose", "read", "write", "fstat", "stat", "mkdir", "unlink", "lseek", "popen", "pclose", "mmap", "dup"}) sim::io::set_fault_rate(n, 0);
  }
} // namespace ex
