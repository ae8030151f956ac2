// Drives the real logger with the commands read on stdin and records what every sink received.
//   begin N LOCAL? | register ID WANTS | set ID | log ID LEVEL ACTIONS | cli VERBOSE FLAG LEVEL ACTIONS TYPED,TYPED... (_ is an empty line, - is no line at all)
#include <iostream>
#include <map>
#include <sstream>
#include "json.hpp"
#include "utils/logger.hpp"
#include "ui/cli/logger.hpp"
using std::string;
using L = Logger::Level; using A = Logger::UserAction;
static std::vector<std::pair<long, Logger::LogEvent>> got; static std::map<long, Logger::ISink*> alive;
static char const* const anames[] = { "nothing", "cancel", "ok", "save", "close", "abort" };
struct Sink : Logger::ISink {
	long n; explicit Sink(long n) : n(n) { alive[n] = this; } ~Sink() override { alive.erase(n); }
	bool flagged() const { return is_interactive; }
	A log(Logger::LogEvent const& e) const override { got.emplace_back(n, e); return A(1 + n % 5); }
};
// a sink that never stops asking does not take the memory with it
struct Bounded : std::stringbuf { std::size_t n = 0;
	std::streamsize xsputn(char const* c, std::streamsize k) override { if((n += k) > 1000000) { std::fputs("it never stops asking\n", stderr); std::_Exit(3); } return std::stringbuf::xsputn(c, k); } };
static L level(string const& s) { return s == "question" ? L::QUESTION : s == "info" ? L::INFO : s == "warning" ? L::WARNING : L::ERROR; }
static std::set<A> actions(string const& s) { std::set<A> o; for(char c : s) if(c != '-') o.insert(A(c - '0')); return o; }
int main() {
	install_crash_handler();
	std::unique_ptr<Logger> lg; long n = 0; string line; long msg = 0;
	auto rec = [&](J& j) { j.raw("got", jarr(got, [](auto const& g) { return std::to_string(g.first); })).raw("alive", jarr(alive, [](auto const& a) { return std::to_string(a.first); }));
		std::vector<long> f; for(auto const& [k, s] : alive) if(static_cast<Sink*>(s)->flagged()) f.push_back(k); j.raw("flagged", jnums(f)); puts(j.done().c_str()); };
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op; in >> op; doing(line); got.clear(); J j; j.str("op", op);
		if(op == "begin") { long k; in >> k; lg.reset(); alive.clear(); lg = std::make_unique<Logger>(); n = 0; j.num("n", k); puts(j.done().c_str()); }
		else if(op == "register") { std::size_t id; int w; in >> id >> w; ++n; lg->register_sink(id, std::make_unique<Sink>(n), w); j.num("id", long(id)).num("sink", n).boolean("wants", w); rec(j); }
		else if(op == "set") { std::size_t id; in >> id; lg->set_as_the_interactive(id); j.num("id", long(id)); rec(j); }
		else if(op == "log") {
			std::size_t id; string lv, ac; in >> id >> lv >> ac; auto m = "message " + std::to_string(++msg);
			Logger::LogEvent e { .destination = id, .level = level(lv), .user_actions = actions(ac), .default_user_action = std::nullopt, .message = m, .informative = "i" + m, .details = "d" + m };
			auto r = lg->log(e); bool ok = true;
			for(auto const& [k, g] : got) ok = ok && g.destination == id && g.level == e.level && g.user_actions == e.user_actions && g.default_user_action == e.default_user_action && g.message == m && g.informative == e.informative && g.details == e.details;
			string would = "["; for(long k = 1; k <= n; ++k) would += (k > 1 ? "," : "") + std::to_string(1 + k % 5);
			j.num("id", long(id)).num("answer", long(r)).raw("would", would + "]").boolean("intact", ok); rec(j);
		} else if(op == "cli") {
			int v, f; string lv, ac, typed; in >> v >> f >> lv >> ac >> typed; auto m = "message" + std::to_string(++msg);
			Logger s; s.register_sink(7, std::make_unique<ui::cli::LoggerSink>(v), f);
			std::vector<string> lines; { std::istringstream ts(typed == "-" ? "" : typed); string x; while(std::getline(ts, x, ',')) lines.push_back(x == "_" ? "" : x); }
			string text; for(auto const& x : lines) text += x + "\n";
			std::istringstream cin2(text); std::ostringstream out; Bounded err;
			auto* b0 = std::cin.rdbuf(cin2.rdbuf()); auto* b1 = std::cout.rdbuf(out.rdbuf()); auto* b2 = std::cerr.rdbuf(&err);
			auto r = s.log({ .level = level(lv), .user_actions = actions(ac), .default_user_action = std::nullopt, .message = m, .informative = "", .details = "" });
			std::cin.rdbuf(b0); std::cout.rdbuf(b1); std::cerr.rdbuf(b2); std::cin.clear();
			auto count = [](string const& h, string const& w) { long c = 0; for(auto p = h.find(w); p != string::npos; p = h.find(w, p + w.size())) ++c; return c; };
			j.boolean("verbose", v).boolean("flag", f).str("level", lv).raw("actions", jarr(actions(ac), [](A a) { return jstr(anames[int(a)]); })).raw("typed", jarr(lines, [](string const& x) { return jstr(x); }))
			 .num("times", count(err.str(), m)).num("prompts", count(err.str(), " ? ")).str("stdout", out.str()).str("answer", anames[int(r)]); puts(j.done().c_str());
		}
	}
	return 0;
}
