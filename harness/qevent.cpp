// wrong-qevent-cast: in "case QEvent::X:" the event may be cast to the class that Qt documents for X, or to
// "QXEvent"; the value of the enumerator, its name and the class are arbitrary.
#include "h.h"
using namespace h;

namespace
{
struct Type {
    unsigned value; // QEvent::Type
    const char *name, *classes;
};
const Type TYPES[] = {
    {114, "ActionAdded", "QActionEvent"},
    {115, "ActionRemoved", "QActionEvent"},
    {99, "ActionChanged", "QActionEvent"},
    {68, "ChildAdded", "QChildEvent"},
    {71, "ChildRemoved", "QChildEvent"},
    {69, "ChildPolished", "QChildEvent"},
    {43, "MetaCall", "QDBusSpyCallEvent QDBusCallDeliveryEvent"},
    {60, "DragEnter", "QDragEnterEvent QDragMoveEvent QDropEvent"},
    {62, "DragLeave", "QDragLeaveEvent QDragMoveEvent QDropEvent"},
    {61, "DragMove", "QDragMoveEvent QDropEvent"},
    {8, "FocusIn", "QFocusEvent"},
    {9, "FocusOut", "QFocusEvent"},
    {23, "FocusAboutToChange", "QFocusEvent"},
    {198, "Gesture", "QGestureEvent"},
    {202, "GestureOverride", "QGestureEvent"},
    {159, "GraphicsSceneContextMenu", "QGraphicsSceneEvent"},
    {160, "GraphicsSceneHoverEnter", "QGraphicsSceneHoverEvent QGraphicsSceneEvent"},
    {161, "GraphicsSceneHoverMove", "QGraphicsSceneHoverEvent QGraphicsSceneEvent"},
    {162, "GraphicsSceneHoverLeave", "QGraphicsSceneHoverEvent QGraphicsSceneEvent"},
    {163, "GraphicsSceneHelp", "QGraphicsSceneEvent"},
    {164, "GraphicsSceneDragEnter", "QGraphicsSceneDragDropEvent QGraphicsSceneEvent"},
    {165, "GraphicsSceneDragMove", "QGraphicsSceneDragDropEvent QGraphicsSceneEvent"},
    {166, "GraphicsSceneDragLeave", "QGraphicsSceneDragDropEvent QGraphicsSceneEvent"},
    {167, "GraphicsSceneDrop", "QGraphicsSceneDragDropEvent QGraphicsSceneEvent"},
    {168, "GraphicsSceneWheel", "QGraphicsSceneEvent"},
    {181, "GraphicsSceneResize", "QGraphicsSceneEvent"},
    {155, "GraphicsSceneMouseMove", "QGraphicsSceneMouseEvent"},
    {156, "GraphicsSceneMousePress", "QGraphicsSceneMouseEvent"},
    {157, "GraphicsSceneMouseRelease", "QGraphicsSceneMouseEvent"},
    {158, "GraphicsSceneMouseDoubleClick", "QGraphicsSceneMouseEvent"},
    {110, "ToolTip", "QHelpEvent"},
    {111, "WhatsThis", "QHelpEvent"},
    {123, "QueryWhatsThis", "QHelpEvent"},
    {127, "HoverEnter", "QHoverEvent QInputEvent"},
    {128, "HoverLeave", "QHoverEvent QInputEvent"},
    {129, "HoverMove", "QHoverEvent QInputEvent"},
    {6, "KeyPress", "QKeyEvent QInputEvent"},
    {7, "KeyRelease", "QKeyEvent QInputEvent"},
    {51, "ShortcutOverride", "QKeyEvent QInputEvent"},
    {2, "MouseButtonPress", "QMouseEvent"},
    {3, "MouseButtonRelease", "QMouseEvent"},
    {4, "MouseButtonDblClick", "QMouseEvent"},
    {5, "MouseMove", "QMouseEvent"},
    {173, "NonClientAreaMouseMove", "QMouseEvent"},
    {174, "NonClientAreaMouseButtonPress", "QMouseEvent"},
    {175, "NonClientAreaMouseButtonRelease", "QMouseEvent"},
    {176, "NonClientAreaMouseButtonDblClick", "QMouseEvent"},
    {197, "NativeGesture", "QInputEvent"},
    {208, "OrientationChange", "QScreenOrientationChangeEvent"},
    {171, "TabletEnterProximity", "QTabletEvent QInputEvent"},
    {172, "TabletLeaveProximity", "QTabletEvent QInputEvent"},
    {92, "TabletPress", "QTabletEvent QInputEvent"},
    {87, "TabletMove", "QTabletEvent QInputEvent"},
    {93, "TabletRelease", "QTabletEvent QInputEvent"},
    {194, "TouchBegin", "QTouchEvent QInputEvent"},
    {209, "TouchCancel", "QTouchEvent QInputEvent"},
    {196, "TouchEnd", "QTouchEvent QInputEvent"},
    {195, "TouchUpdate", "QTouchEvent QInputEvent"},
    {31, "Wheel", "QInputEvent"},
    {82, "ContextMenu", "QInputEvent"},
};
std::vector<std::string> words(const char *s)
{
    std::vector<std::string> r{""};
    for (; *s; ++s)
        if (*s == ' ')
            r.push_back("");
        else
            r.back() += *s;
    return r;
}
// where the cast stands, relative to the switch
struct Place {
    const char *code;
    bool reported; // considered at all
    bool inner = false; // it is the case of Zz1 that counts
};
const Place PLACES[] = {
    {"switch (e->type()) { case QEvent::V: use(static_cast<C *>(e)); break; default: break; }", true},
    {"switch (e->type()) { case QEvent::V: case QEvent::Zz1: { auto *c = static_cast<const C *>(e); use(c); } default: break; }", true, true},
    {"switch (e->type()) { case QEvent::V: if (other) use(static_cast<C *>(e)); }", true},
    {"switch (e->type()) { case QEvent::V: if (e->type() == QEvent::Zz1) use(static_cast<C *>(e)); }", false},
    {"switch (o->type()) { case QEvent::V: use(static_cast<C *>(e)); }", false},
    {"switch (e->type()) { case QEvent::V: for (;;) { switch (other) { case 1: use(static_cast<C *>(e)); } } }", true},
    {"if (e->type() == QEvent::V) use(static_cast<C *>(e));", false},
    {"switch (e->type()) { case QEvent::V: use(static_cast<QEvent *>(static_cast<C *>(n))); }", false},
};

void check(unsigned cls, unsigned enu, const Place &place, unsigned bytes, unsigned fixed)
{
    std::string c = std::string("Zc_wkv7Yxp_Zr_tbn4Uo_Mf_qa5").substr(0, cls), v = std::string("Ze_ukw8Qxo_Ys_ubm3Wn_Nf_qb6").substr(0, enu);
    std::string body;
    for (const char *p = place.code; *p; ++p)
        if (*p == 'C')
            body += c;
        else if (*p == 'V')
            body += v;
        else
            body += *p;
    TU tu;
    tu.code = "struct QEvent { enum Type : int { Zz1 = 7, " + v + " = 12345 }; Type type() const; };\nstruct " + c
        + " : QEvent {};\nvoid use(const QEvent *);\nvoid handle(QEvent *e, QEvent *o, " + c + " *n, int other) { " + body + " }\n";
    tu.checks = {byName("wrong-qevent-cast")};
    withTU(tu, [&](Env &env) {
        EnumConstantDecl *d = nullptr;
        for (auto *x : env.decls<EnumConstantDecl>())
            if (x->getName() == v)
                d = x;
        char *pc = env.identifier(c, "class"), *pv = env.identifier(v, "enumerator");
        uint64_t *store = reinterpret_cast<uint64_t *>(static_cast<APIntStorage *>(d));
        uint64_t value = fixed;
        if (bytes)
            rt_make_symbolic_int(&value, bytes, "value");
        *store = value;
        std::string nc(pc, cls), nv(pv, enu);
        for (const std::string &n : {nc, nv})
            for (unsigned i = 0; i < n.size(); ++i) {
                SYM_ASSUME(ccIdent(n[i]));
                if (!i)
                    SYM_ASSUME(!ccDigit(n[0]));
            }
        std::string event = place.inner ? "Zz1" : nv;
        bool ok = eq(nc, "Q" + event + "Event");
        for (auto &t : TYPES)
            for (auto &w : words(t.classes))
                ok |= ((place.inner ? 7 : value) == t.value) & eq(nc, w);
        env.run();
        bool want = place.reported && !ok;
        SYM_ASSERT((env.reported.size() == 1) == want, "reported exactly if the class is not one for events of that type");
        SYM_ASSERT(env.reported.size() <= 1, "reported once");
        rt_reach(env.reported.empty() ? "silent" : "reported");
        if (!env.reported.empty()) {
            std::string w = "Cast from a QEvent::" + event + " event to " + nc + " looks suspicious.";
            const std::string &m = env.reported[0].message;
            SYM_ASSERT(m.size() >= w.size() && eq(m.substr(0, w.size()), w), "the warning names the event and the class");
        }
    });
}
}

int main()
{
    unsigned deep = rt_param("deep", 0);
    allow("5LexerC", "the file text is concrete");
    allow("5Lexer3Lex", "the file text is concrete");
    allow("getQualifiedNameAsString", "modelled");
    allow("getAsString", "modelled: symbolic names are put back into what it returns");
    allow("libclang-cpp.so", "no matcher is registered");
    unsigned k = 0;
    for (unsigned cls = 7; cls <= 29; ++cls, ++k)
        for (unsigned enu : {cls > 7 ? cls - 6 : 3u, 4u}) {
            if (enu == 4 && cls % 3 && !deep)
                continue;
            unsigned nplaces = sizeof PLACES / sizeof *PLACES;
            for (unsigned p = 0; p < nplaces; ++p)
                if (deep || p == 0 || p == 1 + (k + enu) % (nplaces - 1))
                    explore((std::to_string(cls) + "-" + std::to_string(enu) + "-" + std::to_string(p)).c_str(), [=] {
                        check(cls, enu, PLACES[p], deep ? 2 : !p && enu != 4, TYPES[(cls * 7 + enu + p) % (sizeof TYPES / sizeof *TYPES)].value);
                    });
        }
    rt_expect_reach("reported");
    rt_expect_reach("silent");
    rt_finish();
}
