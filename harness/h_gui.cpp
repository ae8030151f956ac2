// Drives the real graphical interface (offscreen) with the commands read on stdin, one per line, and records what it shows.
//   start DOC PATH | start - | open DOC PATH | openbad PATH | opencancel
//   next | prev | undo | redo | edit E... | cancel E... | bad E... | view NAME | pick s|p N (select an item in one view)
// A field "-" of an edit is left as the dialog shows it.
#include <clocale>
#include <iostream>
#include <QAction>
#include <QApplication>
#include <QButtonGroup>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QFileDialog>
#include <QGraphicsSceneMouseEvent>
#include <QGraphicsView>
#include <QLabel>
#include <QMenu>
#include <QMessageBox>
#include <QPointer>
#include <QProgressBar>
#include <QPushButton>
#include <QStandardItemModel>
#include <QStatusBar>
#include <QTableView>
#include <QTimer>
#include <QToolButton>
#include "json.hpp"
#include "edits.hpp"
#include "report.hpp"
#include "utils/progress.hpp"
#include "utils/logger.hpp"
#include "infra/utils/to_string.hpp"
#include "ui/qt/main_window.hpp"
#include "ui/qt/data_keys.hpp"
#include "ui/qt/user_types.hpp"
#include "ui/qt/edit/edit_dialog.hpp"
#include "ui/qt/processing_view/processing_view.hpp"
#include "ui/qt/structure_view/structure_view.hpp"
#include "ui/qt/structure_view/structure_meshline.hpp"
#include "ui/qt/structure_view/structure_meshline_policy.hpp"
#include "ui/qt/structure_view/structure_angle.hpp"
#include "ui/qt/structure_view/structure_interval.hpp"
#include "ui/qt/structure_view/structure_conflict_colinear_edges.hpp"
#include "ui/qt/structure_view/structure_conflict_diagonal_or_circular_zone.hpp"
#include "ui/qt/structure_view/structure_conflict_too_close_meshline_policies.hpp"
#include "ui/qt/utils/nodegraph/text.hpp"
#include <numeric>
#include <random>
#include <sys/resource.h>
#include "ui/qt/utils/nodegraph/wire.hpp"
#include "ui/qt/processing_view/processing_axis.hpp"
#include "ui/qt/processing_view/processing_plane.hpp"
using std::string;
Q_DECLARE_METATYPE(domain::MeshlinePolicy::Normal)
Q_DECLARE_METATYPE(domain::MeshlinePolicy::Policy)
using namespace ui::qt;

namespace {
app::OpenEMSH* oe; std::unique_ptr<MainWindow> win;
template<class T> T* find(char const* n) { auto* p = win->findChild<T*>(n); if(!p) { fprintf(stderr, "no widget %s\n", n); _exit(9); } return p; }
QAction* act(char const* n) { return find<QAction>(n); }
ProcessingView* pv() { return find<ProcessingView>("processing_view"); }
StructureView* sv() { return find<StructureView>("structure_view"); }

// ---- what modal windows get as an answer
struct { string file; bool cancel_file = false; std::optional<Edit> edit; enum { COMMIT, CANCEL, BAD } how = COMMIT; Logger::UserAction answer = Logger::UserAction::OK; int messages = 0, dialogs = 0, ticks = 0; string said; } plan;

void set_row(QStandardItemModel* m, int row, string const& v) { m->item(row, 2)->setText(QString::fromStdString(v)); }
void set_bool(QStandardItemModel* m, int row, string const& v) { m->item(row, 2)->setCheckState(v != "0" ? Qt::Checked : Qt::Unchecked); }
void fill(QStandardItemModel* m, string const& kind, std::vector<string> const& f) {
	using P = domain::MeshlinePolicy::Policy; using N = domain::MeshlinePolicy::Normal;
	for(int i = 0; i < int(f.size()); ++i) {
		if(f[i] == "-") continue;
		if(kind == "edge" || kind == "angle" || (kind == "policy" && i == 2)) set_bool(m, i == 2 && kind == "policy" ? 2 : i, f[i]);
		else if(kind == "policy" && i == 0) m->item(0, 2)->setData(QVariant::fromValue(P(std::stoi(f[0]))));
		else if(kind == "policy" && i == 1) m->item(1, 2)->setData(QVariant::fromValue(N(std::stoi(f[1]))));
		else set_row(m, i, f[i]);
	}
}
string g_kind; std::vector<string> g_asked;
void spoil(QStandardItemModel* m) {
	static std::mt19937 rnd(unsigned(std::hash<string>{}(g_kind + std::accumulate(g_asked.begin(), g_asked.end(), string()))));
	using P = domain::MeshlinePolicy::Policy; using N = domain::MeshlinePolicy::Normal;
	if(g_kind == "policy" && rnd() % 2 == 0 && m->item(0, 2)->data().value<P>() == P::THIRDS) { m->item(1, 2)->setData(QVariant::fromValue(N::NONE)); return; }
	if(g_kind == "edge" || g_kind == "angle") { m->item(rnd() % 2, 2)->setCheckState(Qt::PartiallyChecked); return; }
	// what no number is, and numbers without which nothing can be meshed
	using V = std::vector<std::pair<int, char const*>>;
	static std::map<string, V> const all = {
		{"global", {{0, "-1"}, {0, "nan"}, {0, "inf"}, {1, "0.5"}, {1, "nan"}, {1, "inf"}, {2, "-1"}, {2, "1.5"}, {3, "0"}, {3, "-2"}, {3, "nan"}, {3, "2,5"}, {4, "12x"}, {5, "0"}, {5, "-1"}, {5, "nan"}, {6, ""}, {6, "12x"}}},
		{"interval", {{0, "0"}, {0, "-1"}, {0, "nan"}, {0, ""}, {1, "-1"}, {2, "0.9"}, {2, "nan"}, {2, "-inf"}, {3, "2.5"}, {4, "0.5"}, {4, "12x"}, {4, "inf"}}},
		{"zone", {{0, "1.5"}, {0, "-1"}, {1, "0"}, {1, "-1"}, {1, "nan"}, {2, "12x"}, {2, ""}}},
		{"policy", {{3, "0"}, {3, "-1"}, {3, "nan"}, {3, "12x"}, {3, ""}}} };
	auto const& v = all.at(g_kind); auto const& [row, text] = v[rnd() % v.size()];
	set_row(m, row, text);
}
void pump() {
	if(++plan.ticks > 20000) { fprintf(stderr, "a modal window does not close\n"); _exit(8); }
	if(auto* p = qobject_cast<QMenu*>(QApplication::activePopupWidget())) { p->close(); return; }
	auto* w = QApplication::activeModalWidget(); if(!w) return;
	if(auto* fd = qobject_cast<QFileDialog*>(w)) {
		if(plan.cancel_file) { static_cast<QDialog*>(fd)->reject(); return; }
		auto i = plan.file.rfind('/'); fd->setDirectory(QString::fromStdString(plan.file.substr(0, i))); fd->selectFile(QString::fromStdString(plan.file));
		if(!fd->selectedFiles().isEmpty() && fd->selectedFiles().first().toStdString() == plan.file) static_cast<QDialog*>(fd)->done(QDialog::Accepted);
	} else if(auto* mb = qobject_cast<QMessageBox*>(w)) {
		++plan.messages; plan.said = mb->text().toStdString();
		QAbstractButton* b = nullptr;
		if(plan.answer == Logger::UserAction::SAVE) b = mb->button(QMessageBox::Save);
		else if(plan.answer == Logger::UserAction::CANCEL) b = mb->button(QMessageBox::Cancel);
		else if(plan.answer == Logger::UserAction::CLOSE) b = mb->button(QMessageBox::Close);
		if(!b && !mb->buttons().isEmpty()) b = mb->buttons().first();
		if(b) b->click(); else mb->reject();
	} else if(auto* d = dynamic_cast<EditDialog*>(w)) {
		++plan.dialogs;
		auto* m = static_cast<QStandardItemModel*>(d->findChild<QTableView*>("tv_properties")->model());
		auto* bb = d->findChild<QDialogButtonBox*>("dbb_ok");
		if(plan.dialogs > 1) { bb->button(QDialogButtonBox::Cancel)->click(); return; } // refused: the dialog is still there
		fill(m, g_kind, g_asked);
		if(plan.how == plan.BAD) spoil(m);
		bb->button(plan.how == plan.CANCEL ? QDialogButtonBox::Cancel : QDialogButtonBox::Ok)->click();
	} else { fprintf(stderr, "unknown modal window %s\n", w->metaObject()->className()); static_cast<QDialog*>(w)->reject(); }
}
void settle() { for(int i = 0; i < 3; ++i) QApplication::processEvents(); }

void refilter() { for(auto b : {"tb_show_everything", "tb_show_displayed", "tb_show_selected"}) if(auto* x = find<QToolButton>(b); x->isChecked()) x->click(); settle(); }
domain::Axis across(domain::Plane p) { return p == domain::YZ ? domain::Y : p == domain::ZX ? domain::Z : domain::X; }
bool shown(QGraphicsItem const* i) { return i && i->isVisible(); }

// ---- how the views are set, as the drawings themselves show it
struct Set { string plane, wires, mesh, mode; };
std::map<domain::Plane, char const*> const plane_names = {{domain::YZ, "yz"}, {domain::ZX, "zx"}, {domain::XY, "xy"}};
string settings(Set& s) {
	auto* P = pv(); auto* S = sv(); auto* t = Caretaker::singleton().get_current_timepoint();
	if(!P->states.contains(t) || !S->states.contains(t)) return "no view of the current point";
	auto& sc = S->states.at(t).scenes; auto* ps = P->states.at(t).scene;
	auto down = [](char const* n) { return find<QToolButton>(n)->isChecked(); };
	for(auto pl : domain::AllPlane) if(S->scene() == sc[pl]) s.plane = plane_names.at(pl);
	for(auto pl : domain::AllPlane) {
		bool h = sc[pl]->meshlines[domain::H]->isVisible(), v = sc[pl]->meshlines[domain::V]->isVisible();
		string m = h && v ? "all" : h ? "horizontal" : v ? "vertical" : "no";
		if(s.mesh.empty()) s.mesh = m; else if(s.mesh != m) return "the planes do not agree whether the mesh is shown";
	}
	for(auto* w : ps->wires) { string x = w->style == nodegraph::Wire::Style::DIRECT ? "direct" : "curved"; if(s.wires.empty()) s.wires = x; else if(s.wires != x) return "the wires are not all of the same style"; }
	if(s.wires.empty()) s.wires = down("tb_direct_wires") ? "direct" : "curved";
	using D = ProcessingScene::DisplayMode; auto dm = P->get_display_mode();
	s.mode = dm == D::EVERYTHING ? "everything" : dm == D::STRUCTURE_VIEW ? "displayed" : "selected";
	for(auto [n, w] : {std::pair{"tb_plane_" + s.plane, "plane"}, {"tb_show_" + s.mesh + "_mesh", "mesh visibility"}, {"tb_" + s.wires + "_wires", "wire style"}, {"tb_show_" + s.mode, "display mode"}})
		if(!down(n.c_str())) return string(w) + " and its buttons disagree";
	return "";
}
// ---- what every item shows
using Rng = std::pair<double, double>;
Rng span(QLineF const& q, bool upright) { return upright ? Rng(std::min(q.x1(), q.x2()), std::max(q.x1(), q.x2())) : Rng(std::min(q.y1(), q.y2()), std::max(q.y1(), q.y2())); }
Rng span(QRectF const& r0, bool upright) { auto r = r0.normalized(); return upright ? Rng(r.left(), r.right()) : Rng(r.top(), r.bottom()); }
bool close(Rng a, Rng b) { auto near = [](double x, double y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(x) + std::abs(y)); }; return near(a.first, b.first) && near(a.second, b.second); }
struct Told { std::set<Entity const*> from; std::vector<string> says; domain::Plane plane{}; std::optional<std::pair<domain::Axis, Rng>> at; std::vector<std::pair<double, double>> points; int angle = 0; };
std::map<Entity const*, Told> told(domain::Board const& bd) {
	using namespace domain; std::map<Entity const*, Told> m;
	auto q = [](double v) { return QString::number(v).toStdString(); }; auto b = [](bool v) { return string(v ? "true" : "false"); };
	for(auto pl : AllPlane) {
		for(auto const& g : bd.get_polygons(pl)) {
			auto& t = m[g.get()]; t.says = {"Priority: " + std::to_string(g->priority)}; for(auto const& p : g->points) t.points.emplace_back(p->x.value(), p->y.value());
			for(auto const& e : g->edges) { auto& s = e->get_current_state(); auto& x = m[e.get()]; x.says = {"To mesh: " + b(s.to_mesh), "To reverse: " + b(s.to_reverse)}; x.points = {{e->p0().x.value(), e->p0().y.value()}, {e->p1().x.value(), e->p1().y.value()}};
				if(s.conflict) x.from = {s.conflict}; }
		}
		for(auto const& a : bd.get_angles(pl)) { auto& s = a->get_current_state(); auto& x = m[a.get()]; x.says = {"To mesh [H]: " + b(s.to_mesh[H]), "To mesh [V]: " + b(s.to_mesh[V])}; x.from = {a->e0, a->e1}; x.points = {{a->p.x.value(), a->p.y.value()}}; x.angle = 1 + s.to_mesh[H] + 2 * s.to_mesh[V]; }
		for(auto const& c : bd.get_conflicts_edge_in_polygons(pl)) { auto& x = m[c.get()]; x.from.insert(c->edge); for(auto const& o : c->get_current_state().overlaps) x.from.insert(std::get<0>(o)); }
	}
	for(auto ax : AllAxis) {
		auto at = [&](double lo, double hi) { return std::pair(ax, Rng(std::min(lo, hi), std::max(lo, hi))); };
		for(auto const& c : bd.get_conflicts_colinear_edges(ax)) { auto& x = m[c.get()]; for(auto* e : c->get_current_state().edges) x.from.insert(e); }
		for(auto const& c : bd.get_conflicts_too_close_meshline_policies(ax)) { auto& x = m[c.get()]; for(auto* p : c->meshline_policies) x.from.insert(p);
			if(auto* p = dynamic_cast<MeshlinePolicy*>(c->get_current_state().solution)) x.at = at(p->coord.value(), p->coord.value()); }
		for(auto const& p : bd.get_meshline_policies(ax)) { auto& s = p->get_current_state(); auto& x = m[p.get()]; x.at = at(p->coord.value(), p->coord.value());
			x.says = {"Is enabled: " + b(s.is_enabled), "Policy: " + to_string(s.policy), "Normal: " + to_string(s.normal), "d: " + q(s.d)};
			for(auto* o : s.origins) if(auto* e = dynamic_cast<Entity const*>(o)) x.from.insert(e); }
		for(auto const& c : bd.get_conflicts_diagonal_or_circular_zones(ax)) { auto& s = c->get_current_state(); auto& x = m[c.get()]; for(auto* a : s.angles) x.from.insert(a); auto bo = c->bounding(); x.at = at(bo[XMIN].value(), bo[XMAX].value());
			x.says = {"dmax: " + q(s.dmax), "lmin: " + std::to_string(s.lmin), "Minimal angle (°): " + q(s.minimal_angle)}; }
		for(auto const& i : bd.get_intervals(ax)) { auto& s = i->get_current_state(); auto& x = m[i.get()]; x.from = {s.before.meshline_policy, s.after.meshline_policy}; x.at = at(s.before.meshline_policy->coord.value(), s.after.meshline_policy->coord.value());
			for(auto* c : s.conflicts) if(auto* e = dynamic_cast<ConflictDiagonalOrCircularZone const*>(c)) x.from.insert(e);
			x.says = {"dmax: " + q(s.dmax), "Before.lmin: " + std::to_string(s.before.lmin), "Before.Smoothness: " + q(s.before.smoothness), "After.lmin: " + std::to_string(s.after.lmin), "After.Smoothness: " + q(s.after.smoothness)}; }
		for(auto const& l : bd.get_meshlines(ax)) { auto& x = m[l.get()]; x.at = at(l->coord.value(), l->coord.value()); x.says = {"Coord: " + QString::number(l->coord.value(), 'f', 6).toStdString()}; if(l->interval) x.from.insert(l->interval); if(l->policy) x.from.insert(l->policy); }
	}
	return m;
}
string details(ProcessingScene* ps, domain::PlaneSpace<StructureScene*> const& scenes) {
	auto m = told(oe->get_board());
	for(auto* n : ps->nodes) {
		auto* e = DataKeys::get_entity(n->data(DataKeys::ENTITY)); if(!e || !m.contains(e)) continue; auto& t = m[e];
		auto what = n->data(DataKeys::TYPE).toString().toStdString();
		std::set<Entity const*> from; for(auto* i : n->get_input_nodes()) from.insert(DataKeys::get_entity(i->data(DataKeys::ENTITY)));
		std::erase_if(t.from, [&](auto* x) { return !x || !m.contains(x); });
		if(from != t.from) return "the processing view shows another origin of a " + what;
		std::set<string> txt; for(auto* c : n->childItems()) if(auto* x = dynamic_cast<nodegraph::Text*>(c)) txt.insert(x->text().toStdString());
		for(auto& s : t.says) if(!txt.contains(s)) return "the processing view does not show \"" + s + "\" of a " + what;
	}
	auto& y = sv()->style_selector;
	for(auto pl : domain::AllPlane) for(auto* it : scenes[pl]->items()) {
		auto* e = DataKeys::get_entity(it->data(DataKeys::ENTITY)); if(!e || !m.contains(e)) continue; auto& t = m[e];
		auto what = it->data(DataKeys::TYPE).toString().toStdString();
		if(t.at) {
			bool up = t.at->first == across(pl); Rng r = t.at->second;
			if(auto* l = dynamic_cast<QGraphicsLineItem*>(it)) r = span(l->line(), up); else if(auto* q = dynamic_cast<QGraphicsRectItem*>(it)) r = span(q->rect(), up);
			if(!close(r, t.at->second)) return "a " + what + " is drawn elsewhere than in the model";
		}
		if(auto* g = dynamic_cast<QGraphicsPolygonItem*>(it)) {
			auto p = g->polygon(); std::size_t n = t.points.size();
			if(std::size_t(p.size()) != n && std::size_t(p.size()) != n + 1) return "a polygon is drawn elsewhere than in the model";
			for(std::size_t i = 0; i < n; ++i) if(!close({p[i].x(), p[i].y()}, {t.points[i].first, t.points[i].second})) return "a polygon is drawn elsewhere than in the model";
		} else if(auto* l = dynamic_cast<QGraphicsLineItem*>(it); l && t.points.size() == 2) {
			auto q = l->line(); if(!close({q.x1(), q.y1()}, t.points[0]) || !close({q.x2(), q.y2()}, t.points[1])) return "an edge is drawn elsewhere than in the model";
		}
		if(auto* a = dynamic_cast<StructureAngle*>(it)) {
			auto c = a->rect().center(); if(!close({c.x(), c.y()}, t.points[0])) return "an angle is drawn elsewhere than in the model";
			StructureAngle::Params const* want[] = {nullptr, &y.get_angle_hv_disabled(), &y.get_angle_h_enabled(), &y.get_angle_v_enabled(), &y.get_angle_hv_enabled()};
			if(&a->locate_structure_angle_params() != want[t.angle]) return "an angle is shown meshed as it is not now";
		}
	}
	return "";
}
// ---- what is selected in one view is selected in the others
std::set<Entity const*> selected(QGraphicsScene* s) { std::set<Entity const*> r; for(auto* i : s->selectedItems()) if(auto* e = DataKeys::get_entity(i->data(DataKeys::ENTITY))) r.insert(e); return r; }
string pick(bool from_structure, unsigned seed) {
	auto* t = Caretaker::singleton().get_current_timepoint(); auto* ps = pv()->states.at(t).scene; auto& sc = sv()->states.at(t).scenes;
	QGraphicsScene* src = from_structure ? static_cast<QGraphicsScene*>(sv()->scene()) : ps;
	// where only the chain of what is selected is shown, another item of it is picked
	if(from_structure || pv()->get_display_mode() != ProcessingScene::DisplayMode::SELECTED_CHAIN) {
		src->clearSelection(); ps->clearSelection(); for(auto pl : domain::AllPlane) sc[pl]->clearSelection(); settle();
		if(!selected(ps).empty()) return "still selected in the processing view";
		for(auto pl : domain::AllPlane) if(!selected(sc[pl]).empty()) return "still selected in a structure view";
	}
	std::map<std::pair<string, long>, QGraphicsItem*> its; // in an order of ours
	for(auto* i : src->items()) if(DataKeys::get_entity(i->data(DataKeys::ENTITY)) && i->isVisible()) its[{i->data(DataKeys::TYPE).toString().toStdString(), i->data(DataKeys::ID).toLongLong()}] = i;
	if(its.empty()) return "";
	auto it = std::next(its.begin(), seed % its.size()); auto* e = DataKeys::get_entity(it->second->data(DataKeys::ENTITY));
	if(from_structure) it->second->setSelected(true);
	else {
		QGraphicsSceneMouseEvent press(QEvent::GraphicsSceneMousePress), release(QEvent::GraphicsSceneMouseRelease);
		for(auto* ev : {&press, &release}) { ev->setButton(Qt::LeftButton); ps->sendEvent(it->second, ev); }
	}
	settle();
	string bad;
	if(!selected(src).contains(e)) bad = "a " + it->first.first + " is not selected";
	if(!selected(ps).contains(e)) bad = "a " + it->first.first + " is selected in the structure view only";
	if(!from_structure) for(auto pl : domain::AllPlane) {
		std::set<Entity const*> want; auto in = selected(ps);
		for(auto* i : sc[pl]->items()) if(auto* x = DataKeys::get_entity(i->data(DataKeys::ENTITY)); x && in.contains(x) && i->isVisible()) want.insert(x);
		if(selected(sc[pl]) != want) bad = "a " + it->first.first + " selected in the processing view is not in the structure view";
	}
	src->clearSelection(); ps->clearSelection(); settle();
	return bad;
}
// ---- do the views show the current point of history?
template<class T> Entity const* ent(T const& p) { return static_cast<Entity const*>(p.get()); }
string view() {
	auto const& bd = oe->get_board(); auto* t = Caretaker::singleton().get_current_timepoint();
	auto* P = pv(); auto* S = sv();
	if(!P->states.contains(t) || !S->states.contains(t)) return "no view of the current point";
	auto* ps = P->states.at(t).scene;
	if(P->scene() != ps || P->get_current_state().scene != ps) return "another point in the processing view";
	domain::Plane plane = find<QToolButton>("tb_plane_yz")->isChecked() ? domain::YZ : find<QToolButton>("tb_plane_zx")->isChecked() ? domain::ZX : domain::XY;
	if(S->scene() != S->states.at(t).scenes[plane]) return "another point or plane in the structure view";
	std::set<Entity const*> all, got; domain::PlaneSpace<std::set<Entity const*>> on; long nl = 0;
	for(auto pl : domain::AllPlane) {
		for(auto const& g : bd.get_polygons(pl)) { all.insert(ent(g)); on[pl].insert(ent(g)); for(auto const& e : g->edges) { all.insert(ent(e)); on[pl].insert(ent(e)); } }
		for(auto const& a : bd.get_angles(pl)) { all.insert(ent(a)); on[pl].insert(ent(a)); }
		for(auto const& x : bd.get_conflicts_edge_in_polygons(pl)) all.insert(ent(x));
	}
	for(auto ax : domain::AllAxis) {
		auto add = [&](auto const& v) { for(auto const& x : v) { all.insert(ent(x)); for(auto pl : domain::AllPlane) if(domain::transpose(pl, ax)) on[pl].insert(ent(x)); } };
		add(bd.get_conflicts_colinear_edges(ax)); add(bd.get_conflicts_too_close_meshline_policies(ax)); add(bd.get_meshline_policies(ax));
		add(bd.get_conflicts_diagonal_or_circular_zones(ax)); add(bd.get_intervals(ax)); add(bd.get_meshlines(ax)); nl += bd.get_meshlines(ax).size();
	}
	std::size_t np = 0;
	for(auto* it : ps->items()) if(auto e = DataKeys::get_entity(it->data(DataKeys::ENTITY))) { got.insert(e); ++np; }
	if(got != all || np != all.size()) return "the processing view shows " + std::to_string(np) + " items instead of " + std::to_string(all.size());
	for(auto pl : domain::AllPlane) {
		std::set<Entity const*> g; std::size_t n = 0;
		for(auto* it : S->states.at(t).scenes[pl]->items()) if(auto e = DataKeys::get_entity(it->data(DataKeys::ENTITY))) {
			g.insert(e); ++n;
			if(it->type() == UserTypes::STRUCTURE_MESHLINE) {
				auto* l = static_cast<StructureMeshline*>(it); auto const& q = l->line();
				bool ok = false;
				for(auto ax : domain::AllAxis) for(auto const& m : bd.get_meshlines(ax)) if(ent(m) == e) {
					double c = m->coord.value(); // an upright line if the axis lies from left to right
					ok = ax == across(pl) ? q.x1() == c && q.x2() == c : q.y1() == c && q.y2() == c; }
				if(!ok) return "a line is drawn elsewhere than in the model";
			}
			if(it->type() == UserTypes::STRUCTURE_MESHLINE_POLICY) {
				auto* p = static_cast<StructureMeshlinePolicy*>(it);
				auto* en = &S->style_selector.get_meshline_policy_enabled(); auto* di = &S->style_selector.get_meshline_policy_disabled();
				for(auto ax : domain::AllAxis) for(auto const& m : bd.get_meshline_policies(ax)) if(ent(m) == e && &p->locate_structure_meshline_policy_params() != (m->get_current_state().is_enabled ? en : di)) return "a policy is shown enabled or disabled as it is not now";
			}
		}
		if(g != on[pl] || n != on[pl].size()) return "a structure view shows " + std::to_string(n) + " items instead of " + std::to_string(on[pl].size());
	}
	auto lab = find<QLabel>("l_cell_number")->text().toStdString(); auto num = std::to_string(bd.get_mesh_cell_number());
	std::size_t i = lab.size(); while(i > 0 && (isdigit((unsigned char) lab[i - 1]) || lab[i - 1] == '+' || lab[i - 1] == 'e' || lab[i - 1] == '.')) --i;
	if(lab.substr(i) != QString::number(bd.get_mesh_cell_number()).toStdString()) return "cell number " + lab + " instead of " + num;
	using D = ProcessingScene::DisplayMode; using M = StructureScene::MeshVisibility;
	if(auto w = details(ps, S->states.at(t).scenes); !w.empty()) return w;
	auto dm = P->get_display_mode(); auto mv = S->get_mesh_visibility();
	if(dm == D::STRUCTURE_VIEW) {
		for(auto pl : domain::AllPlane) if(shown(ps->planes[pl]) != (pl == plane)) return "the processing view filters another plane";
		for(auto ax : domain::AllAxis) { bool in = int(ax) != int(plane), upright = ax == across(plane);
			if(shown(ps->axes[ax]) != (in && (mv == M::FULL || (mv == M::VERTICAL && upright) || (mv == M::HORIZONTAL && !upright)))) return "the processing view filters another axis"; }
	}
	return "";
}
string expand(domain::Board& bd, string const& text) { // "-" becomes what the dialog shows: the current value
	std::istringstream in(text); string kind, w; in >> kind; std::vector<string> f; long a = 0; std::size_t i = 0;
	if(kind != "global") in >> a >> i;
	while(in >> w) f.push_back(w);
	g_kind = kind; g_asked = f;
	auto N = [](double v) { return dg::num(v); }; auto U = [](auto v) { return std::to_string(long(v)); };
	auto put = [&](std::size_t k, string const& v) { if(k < f.size() && f[k] == "-") f[k] = v; };
	using namespace domain;
	if(kind == "global") { auto const& p = bd.global_params->get_current_state(); put(0, N(p.proximity_limit)); put(1, N(p.smoothness)); put(2, U(p.lmin)); put(3, N(p.dmax)); put(4, N(p.consecutive_diagonal_minimal_angle)); put(5, N(p.diagonal_dmax)); put(6, U(p.diagonal_lmin)); }
	else if(kind == "edge") { std::vector<Edge*> v; for(auto const& pg : bd.get_polygons(Plane(a))) for(auto const& x : pg->edges) v.push_back(x.get()); if(v.empty()) return ""; auto const& s = v[i % v.size()]->get_current_state(); put(0, U(s.to_mesh)); put(1, U(s.to_reverse)); }
	else if(kind == "angle") { auto const& v = bd.get_angles(Plane(a)); if(v.empty()) return ""; auto const& s = v[i % v.size()]->get_current_state(); put(0, U(s.to_mesh[H])); put(1, U(s.to_mesh[V])); }
	else if(kind == "policy") { auto const& v = bd.get_meshline_policies(Axis(a)); if(v.empty()) return ""; auto const& s = v[i % v.size()]->get_current_state();
		// the dialog needs a direction that goes with the policy
		auto P = f[0] == "-" ? int(s.policy) : std::stoi(f[0]) % 3; bool th = MeshlinePolicy::Policy(P) == MeshlinePolicy::Policy::THIRDS;
		if(f[0] != "-") { f[0] = g_asked[0] = std::to_string(P); f[1] = th ? (f[1] == "0" ? "0" : "1") : "0"; g_asked[1] = std::to_string(int(th ? (f[1] == "1" ? MeshlinePolicy::Normal::MIN : MeshlinePolicy::Normal::MAX) : MeshlinePolicy::Normal::NONE)); }
		else { f[0] = std::to_string(P); f[1] = s.normal == MeshlinePolicy::Normal::MIN ? "1" : "0"; g_asked[1] = "-"; }
		put(2, U(s.is_enabled)); put(3, N(s.d)); }
	else if(kind == "interval") { auto const& v = bd.get_intervals(Axis(a)); if(v.empty()) return ""; auto const& s = v[i % v.size()]->get_current_state(); put(0, N(s.dmax)); put(1, U(s.before.lmin)); put(2, "2"); put(3, U(s.after.lmin)); put(4, "2"); }
	else if(kind == "zone") { auto const& v = bd.get_conflicts_diagonal_or_circular_zones(Axis(a)); if(v.empty()) return ""; auto const& s = v[i % v.size()]->get_current_state(); put(0, U(s.lmin)); put(1, N(s.dmax)); put(2, N(s.minimal_angle)); }
	string o = kind; if(kind != "global") o += " " + std::to_string(a) + " " + std::to_string(i); for(auto& x : f) o += " " + x; return o;
}
} // namespace

// What the status bar shows of the last progress report, after the window was told of it.
struct Bar final : Progress::IBar {
	std::shared_ptr<Report> t; QPointer<QProgressBar> bar; QPointer<QLabel> label; string text;
	Bar(std::shared_ptr<Report> t, string const& m) : t(t) {
		auto* sb = win->findChild<QStatusBar*>();
		if(auto l = sb->findChildren<QLabel*>(); !l.empty()) label = l.back();
		if(auto l = sb->findChildren<QProgressBar*>(); !l.empty()) bar = l.back();
		text = label ? label->text().toStdString() : ""; read_prefix(*t, text);
		if(!text.ends_with(m) || !bar || bar->maximum() != t->max) t->step = -2;
	}
	void shown(long at) { if(!bar || !label || label->text().toStdString() != text) t->step = -3; else if(bar->value() > bar->maximum() || (t->max && bar->value() < std::min(at, t->max))) t->step = -4; }
	void tick(std::size_t i) override { t->tick(i); shown(long(i)); }
	void tick(std::size_t i, std::size_t j) override { t->tick(i, j); shown(long(j)); }
	void complete() override { t->whole = true; }
};
int main(int argc, char** argv) {
	rlimit lim { 6ul << 30, 6ul << 30 }; setrlimit(RLIMIT_AS, &lim); // a mesh that never ends does not take the memory with it
	setenv("QT_QPA_PLATFORM", "offscreen", 1); setenv("QT_LOGGING_RULES", "*=false", 1);
	QApplication app(argc, argv); setlocale(LC_NUMERIC, "C"); install_crash_handler();
	QCoreApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
	QTimer poll; QObject::connect(&poll, &QTimer::timeout, pump); poll.start(1);
	auto& c = Caretaker::singleton();
	bool const verbose = getenv("DUMP");
	string line, doc; bool loaded = false;
	auto obs = [&](J& j) {
		settle();
		if(loaded) { auto d = dg::dump(oe->get_board()); if(verbose) fprintf(stderr, "%s\n", d.c_str()); Set v; auto w = settings(v); if(w.empty()) w = view(); j.str("dg", dg::hash(d)).str("vw", w).str("pl", v.plane).str("wr", v.wires).str("mv", v.mesh).str("dm", v.mode); }
		else j.str("dg", "").str("vw", "");
		j.boolean("cu", act("a_undo")->isEnabled()).boolean("cr", act("a_redo")->isEnabled()).boolean("cn", act("a_mesh_next")->isEnabled()).boolean("cp", act("a_mesh_prev")->isEnabled())
		 .boolean("ce", act("a_edit")->isEnabled()).boolean("cs", act("a_file_save")->isEnabled() && act("a_file_save_as")->isEnabled()).num("ms", plan.messages).raw("pg", reports_json());
		puts(j.done().c_str());
	};
	auto nothing = [&](J& j) { if(!loaded) { j = J(); j.str("op", "none").str("what", line); } };
	while(std::getline(std::cin, line)) {
		std::istringstream in(line); string op; in >> op; doing(line); plan.ticks = plan.messages = plan.dialogs = 0; plan.how = plan.COMMIT; plan.cancel_file = false; plan.edit.reset(); plan.answer = Logger::UserAction::OK;
		J j; j.str("op", op);
		if(op == "start") {
			string d, path; in >> d >> path;
			app::OpenEMSH::Params p; p.override_from_cli = [](domain::Params&) {}; p.gui = true; if(d != "-") p.input = path;
			oe = new app::OpenEMSH(p); win = std::make_unique<MainWindow>(*oe); win->show();
			Progress::singleton().register_impl_builder([](std::size_t max, string const& m) -> std::unique_ptr<Progress::IBar> { auto t = std::make_shared<Report>(); t->max = long(max); reports.push_back(t); return std::make_unique<Bar>(t, m); });
			loaded = win->parse_and_display(); doc = d == "-" ? "" : d;
			if(d != "-" && !loaded) { fprintf(stderr, "refused %s\n", path.c_str()); return 3; }
			if(d == "-") j = J(), j.str("op", "none"); else j = J(), j.str("op", "open").str("doc", doc).str("ov", "");
			obs(j);
		} else if(!win) continue;
		else if(op == "open") { string path; in >> doc >> path; plan.file = path; auto before = oe->get_params().input; act("a_file_open")->trigger(); loaded = true; j.str("doc", doc).str("ov", ""); obs(j); }
		else if(op == "openbad") { string path; in >> path; plan.file = path; act("a_file_open")->trigger(); loaded = false; obs(j); }
		else if(op == "opencancel") { plan.cancel_file = true; act("a_file_open")->trigger(); J k; k.str("op", loaded ? "same" : "none").str("what", "opencancel"); obs(k); }
		else if(op == "next") { act("a_mesh_next")->trigger(); nothing(j); obs(j); }
		else if(op == "prev") { act("a_mesh_prev")->trigger(); nothing(j); obs(j); }
		else if(op == "undo" || op == "redo") { act(op == "undo" ? "a_undo" : "a_redo")->trigger(); j.num("n", 1); nothing(j); obs(j); }
		else if(op == "edit" || op == "cancel" || op == "bad") {
			if(!loaded) continue;
			string rest; std::getline(in, rest); rest.erase(0, 1);
			auto& bd = unconst(oe->get_board()); auto full = expand(bd, rest); if(full.empty()) continue;
			auto e = make_edit(bd, full); if(!e) continue;
			plan.how = op == "edit" ? plan.COMMIT : op == "cancel" ? plan.CANCEL : plan.BAD;
			auto* sc = pv()->get_current_state().scene; sc->clearSelection(); settle();
			if(!e->global) {
				QGraphicsItem* it = nullptr;
				for(auto* x : sc->items()) if(auto q = DataKeys::get_entity(x->data(DataKeys::ENTITY)); q && e->entity == q) it = x;
				if(!it) { j.str("vw", "the item to edit is not shown"); j.num("missing", 1); puts(j.done().c_str()); continue; }
				for(auto* x = it; x; x = x->parentItem()) x->setVisible(true);
				it->setSelected(true); settle();
			}
			act("a_edit")->trigger();
			if(op == "edit") { j.str("tg", e->target).str("key", e->key).num("from", int(app::index(e->from))).boolean("gl", e->global).boolean("eff", e->in_effect()).num("dl", plan.dialogs); obs(j); }
			else { refilter(); J k; k.str("op", "same").str("what", line); obs(k); }
		} else if(op == "pick") {
			if(!loaded) continue;
			string w; unsigned n; in >> w >> n; auto bad = pick(w == "s", n); refilter();
			J k; k.str("op", "same").str("what", line).str("sel", bad); obs(k);
		} else if(op == "view") { string n; in >> n; if(auto* b = win->findChild<QToolButton*>(QString::fromStdString(n))) b->click(); else act(n.c_str())->trigger(); J k; k.str("op", loaded ? "view" : "none").str("what", n); obs(k); }
	}
	fflush(stdout); _exit(0);
}
