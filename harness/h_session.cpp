// Drives the application's session object with the commands read on stdin, one per line, and records what it did.
//   load DOC PATH [global ...] | autogc 0|1 | next | prev | undo N | redo N | all | from K | edit E... | ref DOC PATH ITEM;ITEM;...
#include <iostream>
#include "json.hpp"
#include "utils/progress.hpp"
#include "edits.hpp"
#include "report.hpp"
#include "infra/parsers/parser_from_csx.hpp"
using std::string;
struct Bar final : Progress::IBar {
	std::shared_ptr<Report> t;
	explicit Bar(std::shared_ptr<Report> t) : t(t) {}
	void tick(std::size_t i) override { t->tick(i); }
	void tick(std::size_t i, std::size_t j) override { t->tick(i, j); }
	void complete() override { t->whole = true; }
};
int main() {
	install_crash_handler();
	std::unique_ptr<app::OpenEMSH> oe; string doc, ov = "";
	auto& c = Caretaker::singleton();
	bool const verbose = getenv("DUMP");
	Progress::singleton().register_impl_builder([&](std::size_t max, string const& m) -> std::unique_ptr<Progress::IBar> {
		auto t = std::make_shared<Report>(); t->max = long(max); t->step = oe ? long(app::index(oe->get_current_step())) : 0; reports.push_back(t);
		if(getenv("BARS")) fprintf(stderr, "BAR %ld %s\n", reports.back()->step, m.c_str());
		return std::make_unique<Bar>(reports.back());
	});
	auto obs = [&](J& j) {
		auto d = dg::dump(oe->get_board()); if(verbose) fprintf(stderr, "%s\n", d.c_str());
		j.str("dg", dg::hash(d)).boolean("cu", c.can_undo()).boolean("cr", c.can_redo()).boolean("cn", oe->can_run_a_next_step()).boolean("cp", oe->can_go_before());
		j.raw("pg", reports_json());
		puts(j.done().c_str());
	};
	string line;
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op; in >> op; doing(line);
		J j; j.str("op", op);
		if(op == "load") {
			string path; in >> doc >> path; std::getline(in, ov); while(!ov.empty() && ov[0] == ' ') ov.erase(0, 1);
			// the overriding of parameters is fixed for the lifetime of a session
			if(!ov.empty() || !oe) { app::OpenEMSH::Params p; p.override_from_cli = [](domain::Params&) {}; if(!ov.empty()) p.override_from_cli = [o = ov.substr(6)](domain::Params& q) { std::istringstream i(o); set_globals(q, i); }; oe = std::make_unique<app::OpenEMSH>(p); }
			oe->set_input(path);
			auto r = oe->parse();
			if(!r.has_value()) { printf("{\"op\":\"refused\",\"doc\":%s}\n", jstr(doc).c_str()); oe.reset(); return 3; }
			j.str("doc", doc).str("ov", ov).num("nt", long(c.get_history_root()->cluster(true).size())).num("np", long(c.get_pinned_timepoints().size())).num("st", long(app::index(oe->get_current_step()))).boolean("root", c.get_current_timepoint() != nullptr);
			obs(j);
		} else if(op == "autogc") { int on = 1; in >> on; c.set_auto_gc(on); }
		else if(op == "next") { if(oe->can_run_a_next_step()) oe->run_next_step(); obs(j); }
		else if(op == "prev") { if(oe->can_go_before()) oe->go_before_previous_step(); obs(j); }
		else if(op == "undo" || op == "redo") { std::size_t n = 1; in >> n; j.num("n", long(n)); if(op == "undo") c.undo(n); else c.redo(n); obs(j); }
		else if(op == "all") { oe->run_all_steps(); obs(j); }
		else if(op == "from") { int k; in >> k; auto st = app::Step(k - 1); oe->go_before(st); { J b; b.str("op", "before").num("k", k); obs(b); }
			auto nx = oe->get_next_step(); oe->run_from_step(nx ? std::min(st, nx.value()) : st); j.num("k", k); obs(j); }
		else if(op == "edit") {
			string rest; std::getline(in, rest); rest.erase(0, 1);
			auto e = make_edit(unconst(oe->get_board()), rest); if(!e) continue;
			oe->go_before(e->from); auto nx = oe->get_next_step(); e->apply(); oe->run_from_step(nx ? std::min(e->from, nx.value()) : e->from);
			j.str("tg", e->target).str("key", e->key).num("from", int(app::index(e->from))).boolean("gl", e->global).boolean("eff", e->in_effect()); obs(j);
		} else if(op == "ref") { // the steps called one by one on a board of its own
			string path, items; in >> doc >> path; std::getline(in, items);
			c.reset();
			std::function<void(domain::Params&)> over = [](domain::Params&) {}; ov = "";
			std::istringstream is(items); string it; std::vector<string> v; while(std::getline(is, it, ';')) { while(!it.empty() && it[0] == ' ') it.erase(0, 1); if(!it.empty()) v.push_back(it); }
			if(!v.empty() && v[0].starts_with("ov ")) { ov = v[0].substr(3); over = [o = ov.substr(6)](domain::Params& q) { std::istringstream i(o); set_globals(q, i); }; v.erase(v.begin()); }
			auto b = ParserFromCsx::run(path, ParserFromCsx::Params{}, over);
			if(!b.has_value()) { fprintf(stderr, "ref: cannot read %s\n", path.c_str()); return 4; }
			std::vector<string> done;
			auto rec = [&] { J r; r.str("op", "ref").str("doc", doc).str("ov", ov); string l = "["; for(auto& x : done) { if(l.size() > 1) l += ','; l += x; } r.raw("items", l + "]"); auto d = dg::dump(**b); if(verbose) fprintf(stderr, "%s\n", d.c_str()); r.str("dg", dg::hash(d)); puts(r.done().c_str()); };
			rec();
			for(auto const& x : v) {
				if(isdigit((unsigned char) x[0])) { int k = std::stoi(x); direct_step(**b, k); J s; s.str("t", "s").num("k", k).str("key", "").str("tg", "").boolean("gl", false); done.push_back(s.done()); }
				else { auto e = make_edit(**b, x); if(!e) { fprintf(stderr, "ref: no such item %s\n", x.c_str()); return 4; } e->apply(); J s; s.str("t", "e").num("k", 0).str("key", e->key).str("tg", e->target).boolean("gl", e->global); done.push_back(s.done()); }
				rec();
			}
		}
	}
	return 0;
}
