// The progress bar of the command line without the library it is drawn with: it writes what it was told at the end of PROGRESS_LOG.
#include <map>
#include "ui/cli/progress.hpp"
#include "report.hpp"
namespace indicators { class BlockProgressBar {}; }
static std::map<void const*, Report> bars;
namespace ui::cli {
ProgressBar::ProgressBar(std::size_t max, std::string const& prefix) { Report t; t.max = long(max); read_prefix(t, prefix); bars[this] = t; }
ProgressBar::~ProgressBar() {
	if(auto const* f = getenv("PROGRESS_LOG"); f) if(auto* o = fopen(f, "a"); o) { fprintf(o, "%s\n", bars[this].json().c_str()); fclose(o); }
	bars.erase(this);
}
void ProgressBar::tick(std::size_t i) { bars[this].tick(i); }
void ProgressBar::tick(std::size_t i, std::size_t j) { bars[this].tick(i, j); }
void ProgressBar::complete() { bars[this].whole = true; }
}
