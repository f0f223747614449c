#pragma once
// Stand-in for the parts of TCLAP that the commands use, with TCLAP's rules: switches (also combined), "-o v", "--output v", "--output=v", positional values, "--" and the error path through CmdLineOutput::failure.
#include <cstdlib>
#include <exception>
#include <iostream>
#include <list>
#include <sstream>
#include <string>
#include <vector>
namespace TCLAP {
class ArgException : public std::exception {
  public:
    ArgException(const std::string& text = "undefined exception", const std::string& id = "undefined", const std::string& td = "Generic ArgException") : e_(text), id_(id), td_(td) {}
    std::string error() const { return e_; }
    std::string argId() const { return id_ == "undefined" ? " " : "Argument: " + id_; }
    std::string typeDescription() const { return td_; }
    const char* what() const noexcept override { static thread_local std::string s; s = e_ + " -- " + id_; return s.c_str(); }
  private:
    std::string e_, id_, td_;
};
class CmdLineParseException : public ArgException { public: using ArgException::ArgException; };
class ArgParseException : public ArgException { public: using ArgException::ArgException; };
class SpecificationException : public ArgException { public: using ArgException::ArgException; };
class ExitException { public: explicit ExitException(int s) : s_(s) {} int getExitStatus() const { return s_; } private: int s_; };
class CmdLineInterface;
class Arg {
  public:
    Arg(std::string flag, std::string name, std::string desc, bool req, bool value, bool positional) : flag_(flag), name_(name), desc_(desc), req_(req), takes_(value), pos_(positional) {}
    virtual ~Arg() = default;
    const std::string& getFlag() const { return flag_; } const std::string& getName() const { return name_; } std::string getDescription() const { return desc_; } bool isRequired() const { return req_; } bool isSet() const { return set_; }
    std::string shortID(const std::string& = "") const { return pos_ ? "<" + name_ + ">" : flag_.empty() ? "[--" + name_ + "]" : "[-" + flag_ + "]"; }
    virtual void take(const std::string&) = 0; bool takes() const { return takes_; } bool positional() const { return pos_; }
    void mark() { if (set_) throw CmdLineParseException("Argument already set!", name_); set_ = true; }
  protected:
    std::string flag_, name_, desc_; bool req_, takes_, pos_, set_ = false;
};
class CmdLineOutput { public: virtual ~CmdLineOutput() = default; virtual void usage(CmdLineInterface&) = 0; virtual void version(CmdLineInterface&) = 0; virtual void failure(CmdLineInterface&, ArgException&) = 0; };
class CmdLineInterface {
  public:
    virtual ~CmdLineInterface() = default; virtual void add(Arg&) = 0; virtual void add(Arg*) = 0; virtual void parse(int, const char* const*) = 0; virtual void setOutput(CmdLineOutput*) = 0; virtual std::string getVersion() const = 0; virtual std::string getProgramName() const = 0; virtual std::string getMessage() const = 0; virtual std::list<Arg*> getArgList() const = 0;
};
class SwitchArg : public Arg {
  public:
    SwitchArg(const std::string& f, const std::string& n, const std::string& d, bool def = false) : Arg(f, n, d, false, false, false), v_(def) {}
    SwitchArg(const std::string& f, const std::string& n, const std::string& d, CmdLineInterface& c, bool def = false) : SwitchArg(f, n, d, def) { c.add(*this); }
    bool getValue() const { return v_; } void take(const std::string&) override { v_ = !v_; }
  private:
    bool v_;
};
namespace detail { template <class T> T read(const std::string& s, const std::string& n) { std::istringstream i(s); T v; if (!(i >> v) || !(i >> std::ws).eof()) throw ArgParseException("Couldn't read argument value from string '" + s + "'", n); return v; } template <> inline std::string read<std::string>(const std::string& s, const std::string&) { return s; } }
template <class T> class ValueArg : public Arg {
  public:
    ValueArg(const std::string& f, const std::string& n, const std::string& d, bool req, T def, const std::string&) : Arg(f, n, d, req, true, false), v_(def) {}
    ValueArg(const std::string& f, const std::string& n, const std::string& d, bool req, T def, const std::string& t, CmdLineInterface& c) : ValueArg(f, n, d, req, def, t) { c.add(*this); }
    const T& getValue() const { return v_; } void take(const std::string& s) override { v_ = detail::read<T>(s, name_); }
  protected:
    T v_;
};
template <class T> class UnlabeledValueArg : public ValueArg<T> {
  public:
    UnlabeledValueArg(const std::string& n, const std::string& d, bool req, T def, const std::string& t) : ValueArg<T>("", n, d, req, def, t) { this->pos_ = true; }
    UnlabeledValueArg(const std::string& n, const std::string& d, bool req, T def, const std::string& t, CmdLineInterface& c) : UnlabeledValueArg(n, d, req, def, t) { c.add(*this); }
};
class CmdLine : public CmdLineInterface {
  public:
    CmdLine(const std::string& m, char = ' ', const std::string& v = "none", bool = true) : m_(m), v_(v) {}
    void add(Arg& a) override { add(&a); } void add(Arg* a) override { args_.push_front(a); order_.push_back(a); }
    void setOutput(CmdLineOutput* o) override { out_ = o; } std::string getVersion() const override { return v_; } std::string getProgramName() const override { return p_; } std::string getMessage() const override { return m_; } std::list<Arg*> getArgList() const override { return args_; }
    void setExceptionHandling(bool b) { handle_ = b; }
    void parse(int argc, const char* const* argv) override
    {
        try { try { run(argc, argv); } catch (ArgException& e) { if (!handle_) throw; if (out_) out_->failure(*this, e); std::exit(1); } } catch (ExitException& e) { if (!handle_) throw; std::exit(e.getExitStatus()); }
    }
  private:
    void run(int argc, const char* const* argv)
    {
        p_ = argv[0]; bool rest = false; auto named = [&](const std::string& f, bool lng) -> Arg* { for (auto* a : order_) if (!a->positional() && (lng ? a->getName() == f : a->getFlag() == f)) return a; return nullptr; };
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i]; auto value = [&](Arg* a) { if (i + 1 >= argc) throw ArgParseException("Missing a value for this argument!", a->getName()); a->take(argv[++i]); };
            if (!rest && s == "--") { rest = true; continue; }
            if (!rest && (s == "--help" || s == "-h")) { if (out_) out_->usage(*this); throw ExitException(0); } if (!rest && s == "--version") { if (out_) out_->version(*this); throw ExitException(0); }
            if (!rest && s.rfind("--", 0) == 0) { auto q = s.find('='); Arg* a = named(s.substr(2, q == std::string::npos ? q : q - 2), true); if (!a) throw CmdLineParseException("Couldn't find match for argument", s); a->mark(); if (!a->takes()) a->take(""); else if (q != std::string::npos) a->take(s.substr(q + 1)); else value(a); continue; }
            if (!rest && s.size() > 1 && s[0] == '-') { Arg* a = named(s.substr(1), false); if (a) { a->mark(); if (a->takes()) value(a); else a->take(""); continue; } for (std::size_t k = 1; k < s.size(); ++k) { a = named(s.substr(k, 1), false); if (!a || a->takes()) throw CmdLineParseException("Couldn't find match for argument", s); a->mark(); a->take(""); } continue; }
            Arg* a = nullptr; for (auto* x : order_) if (x->positional() && !x->isSet()) { a = x; break; } if (!a) throw CmdLineParseException("Couldn't find match for argument", s); a->mark(); a->take(s);
        }
        std::string miss; for (auto* a : order_) if (a->isRequired() && !a->isSet()) miss += (miss.empty() ? "" : ", ") + a->getName(); if (!miss.empty()) throw CmdLineParseException("Required argument missing: " + miss);
    }
    std::string m_, v_, p_; std::list<Arg*> args_; std::vector<Arg*> order_; CmdLineOutput* out_ = nullptr; bool handle_ = true;
};
class StdOutput : public CmdLineOutput { public: void usage(CmdLineInterface&) override {} void version(CmdLineInterface& c) override { std::cout << c.getVersion() << "\n"; } void failure(CmdLineInterface& c, ArgException& e) override { std::cerr << e.error(); usage(c); throw ExitException(1); } };
} // namespace TCLAP
