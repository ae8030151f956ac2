// What the progress reports told since last asked: for each, the step it was told to belong to, its length and how far it went.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "json.hpp"
struct Report {
	long step = 0, of = 15, max = 0, last = 0, found = 0; bool back = false, over = false, whole = false;
	void at(long i) { if(i < last) back = true; last = i; if(i > max) over = true; }
	void tick(std::size_t i) { at(long(i) + 1); }
	void tick(std::size_t i, std::size_t j) { if(long(i) < found) back = true; found = long(i); at(long(j)); }
	std::string json() const { return J().num("s", step).num("n", of).num("m", max).num("l", last).boolean("b", back).boolean("o", over).boolean("w", whole).done(); }
};
inline std::vector<std::shared_ptr<Report>> reports;
inline std::string reports_json() { auto s = jarr(reports, [](auto const& t) { return t->json(); }); reports.clear(); return s; }
// the "4/15 " a report begins with
inline void read_prefix(Report& t, std::string const& s) { if(sscanf(s.c_str(), "%ld/%ld ", &t.step, &t.of) != 2) t.step = t.of = -1; }
