// Drives the life of a document in the real graphical interface (offscreen): opening, saving, exporting, closing, with the answers
// given to every question, in a folder of its own (argv[1]); after each command tells what was asked and what the folder holds.
//   start IN OUT FORCE FORMAT | next | prev | undo | redo | edit DMAX | look NAME | open FILE|- | save ANSWERS | saveas FILE|- ANSWERS | close ANSWERS
//   export (AppCSXCAD is a program that keeps what it is handed) | put FILE junk|doc NAME|gone | end
// ANSWERS: letters S(ave) C(ancel) X (close), one per question; an unforeseen question gets the one that changes nothing.
#include <clocale>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <QAction>
#include <QApplication>
#include <QDialogButtonBox>
#include <QElapsedTimer>
#include <QFileDialog>
#include <QLabel>
#include <QMessageBox>
#include <QPushButton>
#include <QStandardItemModel>
#include <QTableView>
#include <QTimer>
#include <QToolButton>
#include <pugixml.hpp>
#include "json.hpp"
#include "utils/logger.hpp"
#include "domain/global.hpp"
#include "app/openemsh.hpp"
#include "ui/qt/main_window.hpp"
#include "ui/qt/edit/edit_dialog.hpp"
#include "ui/qt/processing_view/processing_view.hpp"
using std::string; namespace fs = std::filesystem;
using namespace ui::qt;
namespace {
app::OpenEMSH* oe; std::unique_ptr<MainWindow> win; string dir;
QAction* act(char const* n) { auto* p = win->findChild<QAction*>(n); if(!p) { fprintf(stderr, "no action %s\n", n); _exit(9); } return p; }
struct { string file, answers, dmax; int asked = 0, told = 0, ticks = 0, dialogs = 0; string seen; } plan;
void pump() {
	if(++plan.ticks > 20000) { fprintf(stderr, "a modal window does not close\n"); _exit(8); }
	auto* w = QApplication::activeModalWidget(); if(!w) return;
	if(auto* fd = qobject_cast<QFileDialog*>(w)) {
		if(plan.file == "-") { static_cast<QDialog*>(fd)->reject(); return; }
		auto full = QString::fromStdString(dir + "/" + plan.file); fd->setDirectory(QFileInfo(full).path()); fd->selectFile(full);
		if(!fd->selectedFiles().isEmpty() && fd->selectedFiles().first() == full) static_cast<QDialog*>(fd)->done(QDialog::Accepted);
	} else if(auto* mb = qobject_cast<QMessageBox*>(w)) {
		bool question = mb->buttons().size() > 1; char a = 'C';
		plan.seen += mb->text().toStdString() + "|";
		if(question) { if(std::size_t(plan.asked) < plan.answers.size()) a = plan.answers[plan.asked]; ++plan.asked; } else ++plan.told;
		QAbstractButton* b = !question ? mb->buttons().first() : mb->button(a == 'S' ? QMessageBox::Save : a == 'X' ? QMessageBox::Close : QMessageBox::Cancel);
		if(b) b->click(); else mb->reject();
	} else if(auto* d = dynamic_cast<EditDialog*>(w)) {
		auto* bb = d->findChild<QDialogButtonBox*>("dbb_ok"); if(++plan.dialogs > 1) { bb->button(QDialogButtonBox::Cancel)->click(); return; }
		auto* m = static_cast<QStandardItemModel*>(d->findChild<QTableView*>("tv_properties")->model());
		m->item(3, 2)->setText(QString::fromStdString(plan.dmax)); bb->button(QDialogButtonBox::Ok)->click();
	} else static_cast<QDialog*>(w)->reject();
}
void settle() { for(int i = 0; i < 3; ++i) QApplication::processEvents(); }
string letters(string const& a) { std::vector<char> v(a.begin(), a.end()); return jarr(v, [](char c) { return "\"" + string(1, c) + "\""; }); }
unsigned long h(string const& s) { unsigned long x = 1469598103934665603ul; for(unsigned char c : s) x = (x ^ c) * 1099511628211ul; return x % 1000000007; }
string flat(string const& s) { string o; std::vector<double> v; std::istringstream in(s); string w; while(std::getline(in, w, ',')) v.push_back(std::stod(w)); for(double d : v) o += std::format("{} ", d); return o; }
// ---- what a file is: nothing, a document (its body, its grid), or something else
string content(string const& path) {
	std::error_code ec; if(!fs::exists(path, ec)) return "{\"k\":\"none\"}";
	std::ifstream in(path, std::ios::binary); string all((std::istreambuf_iterator<char>(in)), {});
	pugi::xml_document d; auto res = d.load_string(all.c_str(), pugi::parse_default | pugi::parse_comments | pugi::parse_pi);
	auto cs = d.child("openEMS").child("ContinuousStructure");
	if(!res || !cs) return "{\"k\":\"junk\",\"h\":" + std::to_string(h(all)) + "}";
	string g; auto grid = cs.child("RectilinearGrid");
	for(auto n : {"XLines", "YLines", "ZLines"}) { g += flat(grid.child(n).text().get()); g += "/"; }
	grid.remove_children(); d.remove_child("OpenEMSH"); std::ostringstream body; d.save(body, "", pugi::format_raw);
	return "{\"k\":\"doc\",\"b\":" + std::to_string(h(body.str())) + ",\"g\":\"" + std::to_string(h(g)) + "\",\"h\":" + std::to_string(h(all)) + "}";
}
string folder() {
	std::map<string, string> m; for(auto& e : fs::recursive_directory_iterator(dir)) if(e.is_regular_file()) { auto n = fs::relative(e.path(), dir).generic_string(); if(n.ends_with(".csx") || n.ends_with(".xml")) m[n] = content(e.path()); }
	string o = "{"; for(auto& [k, v] : m) { if(o.size() > 1) o += ","; o += "\"" + k + "\":" + v; } return o + "}";
}
string mesh() {
	string g; auto const& bd = oe->get_board();
	for(auto ax : domain::AllAxis) { std::vector<domain::Coord> v; for(auto const& l : bd.get_meshlines(ax)) v.push_back(l->coord);
		std::ranges::sort(v, {}, &domain::Coord::value); auto const [a, b] = std::ranges::unique(v); v.erase(a, b); for(auto c : v) g += std::format("{} ", c.value()); g += "/"; }
	return std::to_string(h(g));
}
} // namespace

int main(int argc, char** argv) {
	setenv("QT_QPA_PLATFORM", "offscreen", 1); setenv("QT_LOGGING_RULES", "*=false", 1); dir = fs::canonical(argv[1]);
	QApplication app(argc, argv); setlocale(LC_NUMERIC, "C"); install_crash_handler(); QApplication::setQuitOnLastWindowClosed(false);
	QCoreApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
	QTimer poll; QObject::connect(&poll, &QTimer::timeout, pump); poll.start(1);
	string line; bool loaded = false;
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op; in >> op; doing(line); plan = {};
		J j; j.str("op", op);
		string handed;
		if(op == "start") {
			string i, o, f, fmt; in >> i >> o >> f >> fmt; app::OpenEMSH::Params p; p.override_from_cli = [](domain::Params&) {}; p.gui = true;
			if(i != "-") p.input = dir + "/" + i; if(o != "-") p.output = o[0] == '/' ? o : dir + "/" + o; else p.output = p.input; p.force = f == "1";
			if(fmt == "uml") p.output_format = app::OpenEMSH::Params::OutputFormat::PLANTUML; if(fmt == "pretty") p.output_format = app::OpenEMSH::Params::OutputFormat::PRETTYPRINT;
			oe = new app::OpenEMSH(p); win = std::make_unique<MainWindow>(*oe); win->show(); loaded = win->parse_and_display();
			j.str("in", i).str("out", o).boolean("force", f == "1");
		}
		else if(op == "next" || op == "prev") act(("a_mesh_" + op).c_str())->trigger();
		else if(op == "undo" || op == "redo") act(("a_" + op).c_str())->trigger();
		else if(op == "edit") { in >> plan.dmax; if(loaded) { win->findChild<ProcessingView*>("processing_view")->get_current_state().scene->clearSelection(); settle(); } act("a_edit")->trigger(); }
		else if(op == "look") { string n; in >> n; if(auto* b = win->findChild<QToolButton*>(QString::fromStdString(n))) b->click(); else act(n.c_str())->trigger(); }
		else if(op == "open") { in >> plan.file; j.str("f", plan.file); act("a_file_open")->trigger(); if(plan.file != "-") loaded = act("a_file_save")->isEnabled(); }
		else if(op == "save") { in >> plan.answers; j.raw("a", letters(plan.answers)); act("a_file_save")->trigger(); }
		else if(op == "saveas") { in >> plan.file >> plan.answers; j.str("f", plan.file).raw("a", letters(plan.answers)); act("a_file_save_as")->trigger(); }
		else if(op == "close") { in >> plan.answers; j.raw("a", letters(plan.answers)); win->close(); }
		else if(op == "export") {
			act("a_appcsxcad")->trigger(); QElapsedTimer t; t.start();
			auto done = dir + "/handed.done"; while(loaded && !plan.told && !fs::exists(done) && t.elapsed() < 10000) { QApplication::processEvents(QEventLoop::AllEvents, 5); }
			settle(); handed = fs::exists(done) ? content(dir + "/handed.out") : "{\"k\":\"none\"}"; fs::remove(done); fs::remove(dir + "/handed.out");
		}
		else if(op == "put") { string f, k, n; in >> f >> k >> n; auto p = dir + "/" + f; j.str("f", f); if(k == "gone") fs::remove(p); else if(k == "junk") std::ofstream(p) << "<openEMS><Contin"; else fs::copy_file(dir + "/" + n, p, fs::copy_options::overwrite_existing); }
		settle();
		auto title = win->windowTitle().toStdString(); if(title.starts_with(dir + "/")) title = title.substr(dir.size() + 1);
		title = title.substr(0, title.find(" - "));
		if(!handed.empty()) j.raw("handed", handed);
		j.num("asked", plan.asked).num("told", plan.told).boolean("ld", loaded).boolean("cs", act("a_file_save")->isEnabled()).boolean("shown", win->isVisible()).str("ti", title).str("gd", loaded ? mesh() : "").raw("fs", folder());
		if(getenv("SEEN")) j.str("seen", plan.seen);
		puts(j.done().c_str());
		if(op == "close" && !win->isVisible()) break;
	}
	fflush(stdout); _exit(0);
}
