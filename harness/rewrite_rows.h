const char *D0 = R"CODE(struct QString { QString(const char *); }; struct QFileInfo { QFileInfo(const QString &); QFileInfo(const char *); bool exists() const; static bool exists(const QString &); };
)CODE";
const char *D1 = R"CODE(struct QDateTime { static QDateTime currentDateTime(); static QDateTime currentDateTimeUtc(); QDateTime toUTC() const; long toMSecsSinceEpoch() const; long toSecsSinceEpoch() const; unsigned toTime_t() const; static long currentMSecsSinceEpoch(); static long currentSecsSinceEpoch(); };
)CODE";
const char *D2 = R"CODE(struct QByteArray { bool isEmpty() const; bool isNull() const; int toInt(bool *ok = nullptr, int base = 10) const; }; QByteArray qgetenv(const char *); bool qEnvironmentVariableIsEmpty(const char *); bool qEnvironmentVariableIsSet(const char *); int qEnvironmentVariableIntValue(const char *, bool * = nullptr);
)CODE";
const char *D3 = R"CODE(struct QString { QString(const char *); }; struct QColor { QColor(); QColor(const char *); QColor(const QString &); QColor(unsigned); QColor(int,int,int,int=255); static QColor fromString(const char *); void setNamedColor(const QString &); };
)CODE";
const char *D4 = R"CODE(template <typename A, typename B> struct QStringBuilder { A a; }; struct QString { QString(const char *); template <typename A, typename B> QString(const QStringBuilder<A, B> &); }; QStringBuilder<const char *, QString> operator+(const char *, const QString &);
)CODE";
const char *D5 = R"CODE(struct QObject { template <typename A, typename B, typename C> static void connect(const QObject *, A, const B *, C); };
template <typename... A> struct QOverload { template <typename R, typename T> static constexpr auto of(R (T::*p)(A...)) { return p; } };
template <typename... A> struct Ov { template <typename R, typename T> constexpr auto operator()(R (T::*p)(A...)) const { return p; } }; template <typename... A> constexpr Ov<A...> qOverload = {};
struct Obj : QObject { void @s(int); void @t(int, int); void @o(); void @o(int); void g(Obj *); };
)CODE";
const char *D6 = R"CODE(struct Nt { Nt(const Nt &); ~Nt(); int x; }; template <typename T> struct QList { T *begin(); T *end(); const T *begin() const; const T *end() const; void detach(); }; namespace std { template <typename T> const T &as_const(T &t) { return t; } } template <typename T> const T &qAsConst(T &t) { return t; }
)CODE";
const char *D7 = R"CODE(#define Q_DISABLE_COPY(C) C(const C &) = delete; C &operator=(const C &) = delete;
)CODE";
const char *D8 = R"CODE(struct Nt { Nt(const Nt &); ~Nt(); int x; }; struct Tr { int x; }; struct Big { int x[20]; };
)CODE";
const char *D9 = R"CODE(struct QObject { template <typename A, typename B, typename C> static void connect(const QObject *, A, const B *, C); template <typename A, typename C> static void connect(const QObject *, A, C); };
template <typename... A> struct QNonConstOverload { template <typename R, typename T> constexpr auto operator()(R (T::*p)(A...)) const -> decltype(p) { return p; } template <typename R, typename T> static constexpr auto of(R (T::*p)(A...)) -> decltype(p) { return p; } };
template <typename... A> struct QOverload : QNonConstOverload<A...> { using QNonConstOverload<A...>::of; using QNonConstOverload<A...>::operator(); }; template <typename... A> constexpr QOverload<A...> qOverload = {};
struct Obj : QObject { void s1(int); void t1(int, int); void o1(); void o1(int); void g(Obj *); };
)CODE";
const char *D10 = R"CODE(struct QByteArray { QByteArray(const char *); ~QByteArray(); operator const char *() const; const char *constData() const; }; void func(const char *); QByteArray get(); struct QString { QByteArray toUtf8() const; }; 
#define QByteArrayLiteral(x) QByteArray(x)
#define T "tt"
)CODE";
const char *D11 = R"CODE(struct QString { QString(const char *); ~QString(); }; template <typename T> struct QList { QList(); QList(const QList &); ~QList(); QList(int, T); QList &operator<<(const T &); template <typename... A> QList(T, T, A...); QList(T); int size() const; }; struct QStringList : QList<QString> { using QList::QList; QStringList(); QStringList(const QStringList &); ~QStringList(); QStringList(const QList &); QStringList &operator<<(const QString &); }; void take(QStringList); void takeL(QList<int>, int);
)CODE";
const char *D12 = R"CODE(#define EXP __attribute__((visibility("default")))
)CODE";
const char *D13 = R"CODE(struct QString { QString(const char *); ~QString(); }; template <typename T> struct QList { QList(); QList(const QList &); ~QList(); QList &operator<<(const T &); QList &operator<<(const QList &); template <typename... A> QList(T, T, A...); QList(T); int size() const; }; struct QStringList : QList<QString> { using QList::QList; QStringList(); QStringList(const QStringList &); ~QStringList(); QStringList(const QList &); }; void take(QStringList); void takeL(QList<int>, int);
)CODE";
const char *D14 = R"CODE(struct QLatin1String { QLatin1String(const char *); }; struct QString { QString(); QString(const char *); QString(QLatin1String); QString(const QString &); ~QString(); QString &operator=(const char *); QString &operator=(const QString &); QString &operator=(QLatin1String); QString &operator+=(const char *); QString &operator+=(QLatin1String); bool operator==(const char *) const; bool operator==(QLatin1String) const; bool contains(const QString &) const; bool contains(QLatin1String) const; bool startsWith(const QString &) const; bool startsWith(QLatin1String) const; QString arg(int) const; static QString fromLatin1(const char *, int = -1); static QString fromUtf8(const char *, int = -1); }; void take(const QString &); struct QStringList { QStringList(const QString &); }; QString operator+(const QString &, const char *); QString operator+(const QString &, QLatin1String);
#define QStringLiteral(x) QString(QLatin1String(x))
)CODE";
const char *D15 = R"CODE(struct QString { QString(const char *); QString arg(const QString &, int = 0) const; QString arg(const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &) const; QString arg(int) const; };
)CODE";
const char *D16 = R"CODE(#define Q_OBJECT
#define SIGNAL(x) #x
#define SLOT(x) #x
struct QObject { static bool connect(const QObject *, const char *, const QObject *, const char *); bool connect(const QObject *, const char *, const char *) const; static bool disconnect(const QObject *, const char *, const QObject *, const char *); template <typename A, typename B> static bool connect(const QObject *, A, const QObject *, B); }; struct QTimer { static void singleShot(int, const QObject *, const char *); template <typename A> static void singleShot(int, const QObject *, A); };
struct Obj : QObject { Q_OBJECT public: void sig1(int); void slt1(); void g(Obj *); void over(int); void over(); };
)CODE";
const char *D17 = R"CODE(#define QT_ANNOTATE_ACCESS_SPECIFIER(x) __attribute__((annotate(#x)))
#define Q_OBJECT
#define Q_SIGNALS public QT_ANNOTATE_ACCESS_SPECIFIER(qt_signal)
#define signals Q_SIGNALS
#define Q_SLOTS QT_ANNOTATE_ACCESS_SPECIFIER(qt_slot)
#define slots Q_SLOTS
#define Q_INVOKABLE QT_ANNOTATE_ACCESS_SPECIFIER(qt_invokable)
struct QObject { }; template <typename T> struct QList {}; template <typename A, typename B> struct QMap {};
)CODE";
const char *D18 = R"CODE(struct QStringRef { QStringRef(); int toInt() const; bool isEmpty() const; }; struct QString { QString(const char *); QString mid(int, int = -1) const; QString left(int) const; QString right(int) const; int toInt() const; int size() const; bool isEmpty() const; QStringRef midRef(int, int = -1) const; QStringRef leftRef(int) const; QStringRef rightRef(int) const; QString &append(const QString &); QString &append(const QStringRef &); bool contains(const QString &) const; QString trimmed() const; bool operator==(const QString &) const; }; void take(QString); bool operator==(const QStringRef &, const QString &);
)CODE";
const char *D19 = R"CODE(#define Q_OBJECT
#define Q_SIGNALS public
#define signals public
#define Q_SLOTS
#define slots
#define Q_INVOKABLE
#define Q_SLOT
struct QObject { }; template <typename T> struct QList {}; template <typename A, typename B> struct QMap {};
)CODE";
const char *D20 = R"CODE(#define Q_OBJECT
const char *qFlagLocation(const char *);
#define Q_SIGNALS public
#define signals public
#define Q_SLOTS
#define slots
#define SIGNAL(x) qFlagLocation("2" #x)
#define SLOT(x) qFlagLocation("1" #x)
struct QObject { static bool connect(const QObject *, const char *, const QObject *, const char *, int = 0); bool connect(const QObject *, const char *, const char *, int = 0) const; static bool disconnect(const QObject *, const char *, const QObject *, const char *); template <typename A, typename B> static bool connect(const QObject *, A, const QObject *, B); template <typename A, typename B> static bool disconnect(const QObject *, A, const QObject *, B); }; struct QTimer : QObject { static void singleShot(int, const QObject *, const char *); template <typename A> static void singleShot(int, const QObject *, A); };
template <typename T> struct QPointer { T *data() const; operator T *() const; };
struct Obj : QObject { Q_OBJECT public: int m; Q_SIGNALS: void sig1(int); public Q_SLOTS: void slt1(); void g(Obj *); void over(int); void over(); };
)CODE";
const Row ROWS[] = {
    {"qfileinfo-exists", D0, R"CODE(bool @a() { return QFileInfo^1(^2"$"^3)^4.^5exists^6(^7)^8; })CODE",
     nullptr},
    {"qfileinfo-exists", D0, R"CODE(bool @a(const char *@b) { return !QFileInfo(^1@b^2).exists(); })CODE",
     nullptr},
    {"qfileinfo-exists", D0, R"CODE(bool @a(const char *@b) { return (^1QFileInfo(@b)^2).exists(); })CODE",
     nullptr},
    {"qfileinfo-exists", D0, R"CODE(bool @a(const char *@b) { return ::QFileInfo(@b).exists(); })CODE",
     nullptr},
    {"qfileinfo-exists", D0, R"CODE(bool @a(const char *@b) { return QFileInfo{^1@b^2}.exists(); })CODE",
     nullptr},
    {"qfileinfo-exists", D0, R"CODE(bool @a(QString &@b) { return QFileInfo(@b).exists() && QFileInfo(@b).exists(); })CODE",
     R"CODE(bool @a(QString &@b) { return QFileInfo::exists(@b) && QFileInfo::exists(@b); })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { QDateTime^1::^2currentDateTime^3(^4)^5.^6toUTC^7(^8)^9; })CODE",
     R"CODE(void @a() { QDateTime^1::currentDateTimeUtc()^9; })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { QDateTime^1::^2currentDateTime^3(^4)^5.^6toMSecsSinceEpoch^7(^8)^9; })CODE",
     R"CODE(void @a() { QDateTime^1::currentMSecsSinceEpoch()^9; })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { QDateTime^1::^2currentDateTime^3(^4)^5.^6toSecsSinceEpoch^7(^8)^9; })CODE",
     R"CODE(void @a() { QDateTime^1::currentSecsSinceEpoch()^9; })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { QDateTime^1::^2currentDateTime^3(^4)^5.^6toTime_t^7(^8)^9; })CODE",
     R"CODE(void @a() { QDateTime^1::currentSecsSinceEpoch()^9; })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { (^1QDateTime::currentDateTime()^2)^3.toUTC(); })CODE",
     R"CODE(void @a() { QDateTime::currentDateTimeUtc(); })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a() { ::^1QDateTime::currentDateTime()^2.toSecsSinceEpoch(); })CODE",
     R"CODE(void @a() { ::^1QDateTime::currentSecsSinceEpoch(); })CODE"},
    {"qdatetime-utc", D1, R"CODE(void @a(QDateTime @b) { @b.currentDateTime().toMSecsSinceEpoch(); })CODE",
     R"CODE(void @a(QDateTime @b) { QDateTime::currentMSecsSinceEpoch(); })CODE"},
    {"qdatetime-utc", D1, R"CODE(namespace @b { using ::QDateTime; } void @a() { @b::QDateTime::currentDateTime().toMSecsSinceEpoch(); })CODE",
     R"CODE(namespace @b { using ::QDateTime; } void @a() { @b::QDateTime::currentMSecsSinceEpoch(); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(bool @b) { qgetenv^1(^2"$"^3)^4.^5isEmpty^6(^7)^8; })CODE",
     R"CODE(void @a(bool @b) { qEnvironmentVariableIsEmpty("$")^8; })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { bool @c = !qgetenv(^1@b^2).isNull(^3); })CODE",
     R"CODE(void @a(const char *@b) { bool @c = !qEnvironmentVariableIsSet(@b); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { bool @c; int i = qgetenv(^1@b^2).toInt(^3&^4@c^5); })CODE",
     R"CODE(void @a(const char *@b) { bool @c; int i = qEnvironmentVariableIntValue(@b, &^4@c); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { int i = qgetenv(@b).toInt(^1); })CODE",
     R"CODE(void @a(const char *@b) { int i = qEnvironmentVariableIntValue(@b); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { int i = qgetenv(@b).toInt(nullptr^1,^2 0); })CODE",
     R"CODE(void @a(const char *@b) { int i = qEnvironmentVariableIntValue(@b); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { bool @c; int i = qgetenv(@b).toInt(^1&@c^2,^30^4); })CODE",
     R"CODE(void @a(const char *@b) { bool @c; int i = qEnvironmentVariableIntValue(@b, &@c); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { bool @c; int i = qgetenv(@b).toInt(nullptr, 10); })CODE",
     nullptr},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { (^1qgetenv(@b)^2).isNull(); })CODE",
     R"CODE(void @a(const char *@b) { qEnvironmentVariableIsSet(@b); })CODE"},
    {"qgetenv", D2, R"CODE(void @a(const char *@b) { ::qgetenv(@b).isNull(); })CODE",
     R"CODE(void @a(const char *@b) { qEnvironmentVariableIsSet(@b); })CODE"},
    {"qgetenv", D2, R"CODE(#define V "$"
void @a() { qgetenv(V).isNull(); })CODE",
     R"CODE(#define V "$"
void @a() { qEnvironmentVariableIsSet(V); })CODE"},
    {"qgetenv", D2, R"CODE(#define V qgetenv("$")
void @a() { V.isNull(); })CODE",
     nullptr},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b(^1"#123"^2); })CODE",
     R"CODE(void @a() { QColor @b(^10x112233^2); })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b{^1"#123456"^2}; })CODE",
     R"CODE(void @a() { QColor @b{^10x123456^2}; })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b = "#80123456"; })CODE",
     R"CODE(void @a() { QColor @b = QColor(0x12, 0x34, 0x56, 0x80); })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a(QColor); void @b() { @a(^1"#12345678"^2); })CODE",
     R"CODE(void @a(QColor); void @b() { @a(^1QColor(0x34, 0x56, 0x78, 0x12)^2); })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b = QColor::fromString(^1"#123"^2); })CODE",
     R"CODE(void @a() { QColor @b = QColor(0x112233); })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b = QColor(^1"#123"^2); })CODE",
     R"CODE(void @a() { QColor @b = QColor(^10x112233^2); })CODE"},
    {"qcolor-from-literal", D3, R"CODE(void @a() { QColor @b = QColor^1("#12345678"); })CODE",
     R"CODE(void @a() { QColor @b = QColor^1(0x34, 0x56, 0x78, 0x12); })CODE"},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { auto @c^1=^2"$"^3+^4@b^5; })CODE",
     R"CODE(void @a(QString @b) { QString @c^1=^2"$"^3+^4@b^5; })CODE"},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { const`1auto @c = "$" + @b; })CODE",
     R"CODE(void @a(QString @b) { const`1QString @c = "$" + @b; })CODE"},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { auto`1const`2@c = "$" + @b; })CODE",
     R"CODE(void @a(QString @b) { QString`1const`2@c = "$" + @b; })CODE"},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { static const auto @c("$" + @b); })CODE",
     R"CODE(void @a(QString @b) { static const QString @c("$" + @b); })CODE"},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { auto &&@c = "$" + @b; })CODE",
     nullptr},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { const auto &@c = "$" + @b; })CODE",
     nullptr},
    {"auto-unexpected-qstringbuilder", D4, R"CODE(void @a(QString @b) { auto @c = [@b] { return "$" + @b; }; })CODE",
     nullptr},
    {"modernize-overloaded-connects", D5, R"CODE(void Obj::g(Obj *@b) { connect(this^1,^2 qOverload^3<^4int^5>^6(^7&^8Obj^9::^A@s^B)^C,^D@b, &Obj::@t); })CODE",
     nullptr},
    {"modernize-overloaded-connects", D5, R"CODE(void Obj::g(Obj *@b) { connect(this,^1QOverload<int>::of(&Obj::@s)^2, @b, QOverload<int, int>::of(&Obj::@t)); })CODE",
     nullptr},
    {"modernize-overloaded-connects", D5, R"CODE(void Obj::g(Obj *@b) { connect(this, static_cast<void (Obj::*)(int)>(&Obj::@s^2), @b, &Obj::@t); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(this, &Obj::@s^2, @b, &Obj::@t); })CODE"},
    {"modernize-overloaded-connects", D5, R"CODE(void Obj::g(Obj *@b) { connect(this, (void (Obj::*)(int))&Obj::@s, @b, &Obj::@t); })CODE",
     nullptr},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for^1(^2Nt @c^3:^4@b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for^1(^2const Nt &@c^3:^4@b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (const`1Nt @c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (const`1Nt &@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (Nt`1const`2@c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (Nt`1const`2&@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (auto @c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (const auto &@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (const auto @c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (const auto &@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (struct Nt @c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (const struct Nt &@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(void @a(const QList<Nt> &@b) { for (::Nt @c : @b) {} })CODE",
     R"CODE(void @a(const QList<Nt> &@b) { for (const ::Nt &@c : @b) {} })CODE"},
    {"range-loop-reference", D6, R"CODE(template <typename T> void @a(const QList<T> &@b) { for (T @c : @b) {} } template void @a<Nt>(const QList<Nt> &);)CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(void @a(QList<int> @b) { for (int @c^1:^2@b^3) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(struct Foo { QList<int> @b; void @a() { for (int @c :^1this^2->^3@b^4) {} } };)CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(struct Foo { QList<int> @b; void @a(Foo @d) { for (int @c :^1@d^2.^3@b^4) {} } };)CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(void @a(QList<int> *@b) { for (int @c :^1*^2@b^3) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(void @a(QList<int> @b) { for (int @c : (^1@b^2)) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(void @a(QList<QList<int>> @b) { for (auto &@c : @b) for (int @d : @c) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(struct Foo { static QList<int> @b; void @a() { for (int @c : Foo::@b) {} } };)CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(QList<int> &@b(int); void @a() { for (int @c : @b(^11^2)) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(#define L @b
void @a(QList<int> @b) { for (int @c : L) {} })CODE",
     nullptr},
    {"range-loop-detach", D6, R"CODE(void @a(QList<int> @b, QList<int> @d, bool @e) { for (int @c : @e ? @b : @d) {} })CODE",
     nullptr},
    {"copyable-polymorphic", D7, R"CODE(class @a^1{ public: @a(); virtual int @b();^2};)CODE",
     R"CODE(class @a^1{ public: @a(); virtual int @b();^2	Q_DISABLE_COPY(@a)
};)CODE"},
    {"copyable-polymorphic", D7, R"CODE(struct @a {^1virtual int @b();
};)CODE",
     R"CODE(struct @a {
public:
	@a() = default;^1virtual int @b();
	Q_DISABLE_COPY(@a)
};)CODE"},
    {"copyable-polymorphic", D7, R"CODE(class @a
{
    int @c;

public:
    virtual int @b();
private:
    int @d;
};)CODE",
     R"CODE(class @a
{
public:
	@a() = default;
    int @c;

public:
    virtual int @b();
private:
    int @d;
	Q_DISABLE_COPY(@a)
};)CODE"},
    {"copyable-polymorphic", D7, R"CODE(class @a
{
public:
    virtual int @b();
private^1:
    int @d;
public:
 int @c(); };)CODE",
     R"CODE(class @a
{
public:
	@a() = default;
public:
    virtual int @b();
private^1:
    int @d;
public:
 int @c(); 	Q_DISABLE_COPY(@a)
};)CODE"},
    {"copyable-polymorphic", D7, R"CODE(template <typename T> class @a
{
public:
    virtual int @b();
private:
    int @d;
}; @a<int> @c;)CODE",
     nullptr},
    {"function-args-by-ref", D8, R"CODE(int @a(^1Nt @b^2) { return @b.x; })CODE",
     R"CODE(int @a(^1const Nt &@b^2) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(int, const`1Nt`2@b) { return @b.x; })CODE",
     R"CODE(int @a(int, const`1Nt`2&@b) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(Nt`1const`2@b) { return @b.x; })CODE",
     R"CODE(int @a(Nt`1const`2&@b) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(Nt @b, ::Nt @c) { return @b.x + @c.x; })CODE",
     R"CODE(int @a(const Nt &@b, const ::Nt &@c) { return @b.x + @c.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(struct Foo { int @a(^1Nt`2@b^3)^4; }; int Foo::@a(Nt @b) { return @b.x; })CODE",
     R"CODE(struct Foo { int @a(^1const Nt`2&@b^3)^4; }; int Foo::@a(const Nt &@b) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(Nt^1); int @a(Nt @b) { return @b.x; })CODE",
     R"CODE(int @a(const Nt^1&); int @a(const Nt &@b) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(^1Big`2@b) { return @b.x[0]; })CODE",
     R"CODE(int @a(^1const Big`2&@b) { return @b.x[0]; })CODE"},
    {"function-args-by-ref", D8, R"CODE(namespace @c { using ::Nt; int @a(@c::Nt @b) { return @b.x; } })CODE",
     R"CODE(namespace @c { using ::Nt; int @a(const @c::Nt &@b) { return @b.x; } })CODE"},
    {"function-args-by-ref", D8, R"CODE(template <typename T> int @a(T @b) { return @b.x; } int @c(Nt &@d) { return @a(@d); })CODE",
     nullptr},
    {"function-args-by-ref", D8, R"CODE(auto @a = [](Nt @b) { return @b.x; };)CODE",
     R"CODE(auto @a = [](const Nt &@b) { return @b.x; };)CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(Nt @b = *(Nt *)nullptr) { return @b.x; })CODE",
     R"CODE(int @a(const Nt &@b = *(Nt *)nullptr) { return @b.x; })CODE"},
    {"function-args-by-ref", D8, R"CODE(int @a(struct Nt @b) { return @b.x; })CODE",
     R"CODE(int @a(const struct Nt &@b) { return @b.x; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const`1Tr^2&^3@b^4) { return @b.x; })CODE",
     R"CODE(int @a(Tr @b^4) { return @b.x; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(Tr`1const^2&@b) { return @b.x; })CODE",
     R"CODE(int @a(Tr @b) { return @b.x; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const Tr &^1) { return 1; })CODE",
     R"CODE(int @a(Tr ^1) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const Tr &@b = {}) { return 1; })CODE",
     R"CODE(int @a(Tr @b = {}) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const Tr &@b^1=Tr()^3) { return 1; })CODE",
     R"CODE(int @a(Tr @b =Tr()^3) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(int, const int^1&@b) { return 1; })CODE",
     R"CODE(int @a(int, int @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const ::Tr &@b) { return 1; })CODE",
     R"CODE(int @a(::Tr @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const struct Tr &@b) { return 1; })CODE",
     R"CODE(int @a(struct Tr @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(namespace @c { struct In { int x; }; } int @a(const @c::In &@b) { return 1; })CODE",
     R"CODE(namespace @c { struct In { int x; }; } int @a(@c::In @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(namespace @c { struct In { int x; }; } using namespace @c; int @a(const In &@b) { return 1; })CODE",
     R"CODE(namespace @c { struct In { int x; }; } using namespace @c; int @a(In @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(template <typename T> struct Te { T x; }; int @a(const Te<int> &@b) { return 1; })CODE",
     nullptr},
    {"function-args-by-value", D8, R"CODE(typedef Tr Alias; int @a(const Alias &@b) { return 1; })CODE",
     R"CODE(typedef Tr Alias; int @a(Alias @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const`1unsigned`2long &@b) { return 1; })CODE",
     R"CODE(int @a(unsigned long @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const Tr &@b); int @a(const Tr &@c) { return 1; })CODE",
     R"CODE(int @a(Tr @b); int @a(Tr @c) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(auto @a = [](const Tr &@b) { return 1; };)CODE",
     R"CODE(auto @a = [](Tr @b) { return 1; };)CODE"},
    {"function-args-by-value", D8, R"CODE(struct Foo { struct In { int x; }; void @a(const In &@b) {} };)CODE",
     R"CODE(struct Foo { struct In { int x; }; void @a(In @b) {} };)CODE"},
    {"function-args-by-value", D8, R"CODE(enum En { e1 }; int @a(const En &@b) { return 1; })CODE",
     R"CODE(enum En { e1 }; int @a(En @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(template <typename T> int @a(const T &@b) { return 1; } int @c = @a(Tr());)CODE",
     nullptr},
    {"function-args-by-value", D8, R"CODE(int @a(const Tr &@b[[maybe_unused]]) { return 1; })CODE",
     R"CODE(int @a(Tr @b[[maybe_unused]]) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a([[maybe_unused]] const Tr &@b) { return 1; })CODE",
     R"CODE(int @a([[maybe_unused]] Tr @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(typedef int *Ptr; int @a(int *const &@b) { return 1; })CODE",
     R"CODE(typedef int *Ptr; int @a(int * @b) { return 1; })CODE"},
    {"function-args-by-value", D8, R"CODE(int @a(const char *const &@b) { return 1; })CODE",
     R"CODE(int @a(const char * @b) { return 1; })CODE"},
    {"modernize-overloaded-connects", D9, R"CODE(void Obj::g(Obj *@b) { connect(this^1,^2qOverload<int>(&^8Obj^9::^As1^B)^C,^D@b, &Obj::t1); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(this^1,^2&^8Obj^9::^As1^B^C,^D@b, &Obj::t1); })CODE"},
    {"modernize-overloaded-connects", D9, R"CODE(void Obj::g(Obj *@b) { QObject::connect(@b,^1qOverload<int>(&Obj::s1)^2, @b, &Obj::t1); })CODE",
     R"CODE(void Obj::g(Obj *@b) { QObject::connect(@b,^1&Obj::s1^2, @b, &Obj::t1); })CODE"},
    {"modernize-overloaded-connects", D9, R"CODE(void Obj::g(Obj *@b) { connect(this,^1QOverload<int>::of(&Obj::s1^7)^8, @b, QOverload<int, int>::of(&Obj::t1)); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(this,^1&Obj::s1^7^8, @b, &Obj::t1); })CODE"},
    {"modernize-overloaded-connects", D9, R"CODE(void Obj::g(Obj *@b) { connect(this, QOverload<>::of(&Obj::o1), @b, QOverload<int>::of(&Obj::o1)); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(this, qOverload<>(&Obj::o1), @b, qOverload<int>(&Obj::o1)); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { const char *@c = @b^1; })CODE",
     R"CODE(void @a(QByteArray @b) { const char *@c = @b.constData()^1; })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func(^1@b^2); })CODE",
     R"CODE(void @a(QByteArray @b) { func(^1@b.constData()^2); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray *@b) { func(^1*^2@b^3); })CODE",
     R"CODE(void @a(QByteArray *@b) { func(^1(*^2@b).constData()^3); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func((^1@b^2)); })CODE",
     R"CODE(void @a(QByteArray @b) { func((^1@b^2).constData()); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b, QByteArray @c, bool @d) { func(@d ? @b : @c); })CODE",
     R"CODE(void @a(QByteArray @b, QByteArray @c, bool @d) { func((@d ? @b : @c).constData()); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a() { func(get^1(^2)^3); })CODE",
     R"CODE(void @a() { func(get^1(^2).constData()^3); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QString @b) { func(@b.toUtf8(^1)^2); })CODE",
     R"CODE(void @a(QString @b) { func(@b.toUtf8(^1).constData()^2); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a() { func(^1QByteArray(^2"$"^3)^4); })CODE",
     R"CODE(void @a() { func(^1^2"$"^3^4); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a() { func(QByteArray{"$"}); })CODE",
     R"CODE(void @a() { func(QByteArray{"$"}.constData()); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a() { func(QByteArray(T " $")); })CODE",
     R"CODE(void @a() { func(T " $"); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a() { func(QByteArrayLiteral("$")); })CODE",
     R"CODE(void @a() { func("$"); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(const char *@b) { func(QByteArray(@b)); })CODE",
     nullptr},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(struct Foo { QByteArray @b; void @a() { func(@b); func(this->@b); } };)CODE",
     R"CODE(struct Foo { QByteArray @b; void @a() { func(@b.constData()); func(this->@b.constData()); } };)CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(bool @a(QByteArray @b) { return @b[0]; })CODE",
     R"CODE(bool @a(QByteArray @b) { return @b.constData()[0]; })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(const char *@a(QByteArray @b) { return @b; })CODE",
     R"CODE(const char *@a(QByteArray @b) { return @b.constData(); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(#define M(x) func(x)
void @a(QByteArray @b) { M(@b); })CODE",
     R"CODE(#define M(x) func(x)
void @a(QByteArray @b) { M(@b.constData()); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(bool @a(QByteArray @b) { return @b == (const char *)nullptr; })CODE",
     R"CODE(bool @a(QByteArray @b) { return @b.constData() == (const char *)nullptr; })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func(@b + 1); })CODE",
     R"CODE(void @a(QByteArray @b) { func(@b.constData() + 1); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func(static_cast<const char *>(@b)); })CODE",
     R"CODE(void @a(QByteArray @b) { func(static_cast<const char *>(@b.constData())); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func((const char *)@b); })CODE",
     R"CODE(void @a(QByteArray @b) { func((const char *)@b.constData()); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(bool @a(QByteArray @b) { return !@b; })CODE",
     R"CODE(bool @a(QByteArray @b) { return !@b.constData(); })CODE"},
    {"qbytearray-conversion-to-c-style", D10, R"CODE(void @a(QByteArray @b) { func(@b.operator const char *()); })CODE",
     nullptr},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b^1=^2QStringList^3(^4)^5<<^6"$" <<^8"x"; })CODE",
     R"CODE(void @a() { QStringList @b{"$", "x"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b = (^1QStringList() << "$" << "x"); })CODE",
     R"CODE(void @a() { QStringList @b{"$", "x"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b(^1QStringList() << "$" << "x"); })CODE",
     R"CODE(void @a() { QStringList @b{"$", "x"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b{QStringList() << "$"}; })CODE",
     R"CODE(void @a() { QStringList @b{"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { take(^1QStringList() << "$"); })CODE",
     R"CODE(void @a() { take(^1{"$"}); })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { takeL(^1QList<int>() <<^21 << 2, 3); })CODE",
     R"CODE(void @a() { takeL(^1{1, 2}, 3); })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a(int @b) { takeL(QList<int>() << @b + 1 << (@b, 2), 3); })CODE",
     R"CODE(void @a(int @b) { takeL({@b + 1, (@b, 2)}, 3); })CODE"},
    {"modernize-list-initialization", D11, R"CODE(QStringList @a() { return QStringList() << "$"; })CODE",
     R"CODE(QStringList @a() { return {"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a(bool @b) { take(@b ? QStringList() << "$" : QStringList()); })CODE",
     R"CODE(void @a(bool @b) { take(@b ? QStringList{"$"} : QStringList()); })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { (QStringList() << "$").size(); })CODE",
     nullptr},
    {"modernize-list-initialization", D11, R"CODE(void @a() { auto @b = QStringList() << "$"; })CODE",
     R"CODE(void @a() { auto @b = QStringList{"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { const QStringList &@b = QStringList() << "$"; })CODE",
     R"CODE(void @a() { const QStringList &@b = {"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b; @b = QStringList() << "$"; })CODE",
     R"CODE(void @a() { QStringList @b; @b = {"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b = QStringList() << "$", @c = QStringList() << "y"; })CODE",
     R"CODE(void @a() { QStringList @b = {"$"}, @c = {"y"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b = QStringList("z") << "$"; })CODE",
     nullptr},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b = QStringList{"z"} << "$"; })CODE",
     nullptr},
    {"modernize-list-initialization", D11, R"CODE(void @a() { QStringList @b = QStringList{} << "$"; })CODE",
     R"CODE(void @a() { QStringList @b{"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(void @a(QStringList @c) { QStringList @b = @c << "$"; })CODE",
     nullptr},
    {"modernize-list-initialization", D11, R"CODE(void @a() { static const QStringList @b = QStringList() << "$"; })CODE",
     R"CODE(void @a() { static const QStringList @b{"$"}; })CODE"},
    {"modernize-list-initialization", D11, R"CODE(#define L QStringList() << "$"
void @a() { QStringList @b = L; take(L); })CODE",
     nullptr},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { int @a^1(^2)^3; }; inline`4int Foo::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { inline int @a^1(^2)^3; }; `4int Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { int @a(); }; int`1inline`2Foo::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { inline int @a(); }; int`1`2Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { static int @a(); }; inline int Foo::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { inline static int @a(); };  int Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { constexpr Foo(); ~Foo(); explicit Foo(int); virtual int @a() const; }; inline int Foo::@a() const { return 1; } inline Foo::~Foo() {} inline Foo::Foo(int) {})CODE",
     R"CODE(struct EXP Foo { constexpr Foo(); ~Foo(); explicit Foo(int); inline virtual int @a() const; };  int Foo::@a() const { return 1; } inline Foo::~Foo() {} inline Foo::Foo(int) {})CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { template <typename T> int @a(); }; template <typename T> inline int Foo::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { template <typename T> inline int @a(); }; template <typename T>  int Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(template <typename T> struct EXP Foo { int @a(); }; template <typename T> inline int Foo<T>::@a() { return 1; })CODE",
     R"CODE(template <typename T> struct EXP Foo { inline int @a(); }; template <typename T>  int Foo<T>::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(#define INL inline
struct EXP Foo { int @a(); }; INL int Foo::@a() { return 1; })CODE",
     R"CODE(#define INL inline
struct EXP Foo { inline int @a(); }; INL int Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { [[nodiscard]]^1int @a(); }; [[gnu::noinline]]^2inline`3int Foo::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { [[nodiscard]]^1inline int @a(); }; [[gnu::noinline]]^2`3int Foo::@a() { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { friend int @a(Foo); operator int(); auto @b()^1->^2int; }; inline Foo::operator int() { return 1; } inline auto Foo::@b() -> int { return 1; })CODE",
     R"CODE(struct EXP Foo { friend int @a(Foo); operator int(); inline auto @b()^1->^2int; }; inline Foo::operator int() { return 1; }  auto Foo::@b() -> int { return 1; })CODE"},
    {"sanitize-inline-keyword", D12, R"CODE(struct EXP Foo { struct In { int @a(); }; }; inline int Foo::In::@a() { return 1; })CODE",
     R"CODE(struct EXP Foo { struct In { inline int @a(); }; };  int Foo::In::@a() { return 1; })CODE"},
    {"modernize-list-initialization", D13, R"CODE(void @a() { QStringList @b = QStringList() << "$" << "x"; })CODE",
     R"CODE(void @a() { QStringList @b = {"$", "x"}; })CODE"},
    {"modernize-list-initialization", D13, R"CODE(void @a(QStringList @c) { QStringList @b = QStringList() << @c << "x"; })CODE",
     nullptr},
    {"modernize-list-initialization", D13, R"CODE(void @a(QList<int> @c) { takeL(QList<int>() << 1 << @c, 4); })CODE",
     nullptr},
    {"modernize-list-initialization", D13, R"CODE(void @a(QList<int> @c) { takeL((QList<int>() << 1) << 2, 4); })CODE",
     R"CODE(void @a(QList<int> @c) { takeL({1, 2}, 4); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b^1=^2"$"^3; })CODE",
     R"CODE(void @a(bool @c) { QString @b^1=^2QStringLiteral("$")^3; })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b(^1"$"^2); })CODE",
     R"CODE(void @a(bool @c) { QString @b(^1QStringLiteral("$")^2); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b{^1"$"^2}; })CODE",
     R"CODE(void @a(bool @c) { QString @b{^1QStringLiteral("$")^2}; })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString(^1"$"^2); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(^1"$"^2); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = ""; })CODE",
     R"CODE(void @a(bool @c) { QString @b = QLatin1String(""); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b; @b^1=^2"$"^3; })CODE",
     R"CODE(void @a(bool @c) { QString @b; @b^1=^2QLatin1String("$")^3; })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b; @b += "$"; })CODE",
     R"CODE(void @a(bool @c) { QString @b; @b += QLatin1String("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { take(^1"$"^2); })CODE",
     R"CODE(void @a(bool @c) { take(^1QStringLiteral("$")^2); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { take(QString(^1"$"^2)); })CODE",
     R"CODE(void @a(bool @c) { take(QStringLiteral(^1"$"^2)); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { take(QLatin1String^1(^2"$"^3)); })CODE",
     R"CODE(void @a(bool @c) { take(QStringLiteral^1(^2"$"^3)); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QLatin1String("$"); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString::fromLatin1(^1"$"^2); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(^1"$"^2); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString::fromLatin1("$", 2); })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString::fromUtf8("$").arg(1); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral("$").arg(1); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = @c ? "$" : "x"; })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b; @b = @c ? "$" : "x"; })CODE",
     R"CODE(void @a(bool @c) { QString @b; @b = @c ? QLatin1String("$") : "x"; })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = @c ? QLatin1String("$") : QLatin1String("x"); })CODE",
     R"CODE(void @a(bool @c) { QString @b = @c ? QStringLiteral("$") : QStringLiteral("x"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = u8"$"; })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(u8"$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = R"($)"; })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(R"($)"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = "$"^1"x"; })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = (^1"$"^2); })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString(QLatin1String(^1"$"^2)); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(^1"$"^2); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b; take(@b + "$"); })CODE",
     R"CODE(void @a(bool @c) { QString @b; take(@b + QLatin1String("$")); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b; @b.startsWith(QString::fromLatin1("$")); })CODE",
     R"CODE(void @a(bool @c) { QString @b; @b.startsWith(QLatin1String("$")); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { auto @b = QString("$"); })CODE",
     R"CODE(void @a(bool @c) { auto @b = QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { auto @b = new QString("$"); })CODE",
     R"CODE(void @a(bool @c) { auto @b = new QString(QStringLiteral("$")); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { for (QString @b = "$";;) {} })CODE",
     R"CODE(void @a(bool @c) { for (QString @b = QStringLiteral("$");;) {} })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { static const QString @b = "$"; })CODE",
     R"CODE(void @a(bool @c) { static const QString @b = QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { const QString &@b = "$"; })CODE",
     R"CODE(void @a(bool @c) { const QString &@b = QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b[] = {"$",^1"x"}; })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { auto @b = [] { return QString("$"); }; })CODE",
     R"CODE(void @a(bool @c) { auto @b = [] { return QStringLiteral("$"); }; })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { throw QString("$"); })CODE",
     R"CODE(void @a(bool @c) { throw QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = static_cast<QString>("$"); })CODE",
     R"CODE(void @a(bool @c) { QString @b = static_cast<QString>(QStringLiteral("$")); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = (QString)"$"; })CODE",
     R"CODE(void @a(bool @c) { QString @b = (QString)QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { (void)(QString("$") == "x"); })CODE",
     R"CODE(void @a(bool @c) { (void)(QStringLiteral("$") == QLatin1String("x")); })CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = __FILE__; })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(void @a(bool @c) { QString @b = QString::fromLatin1(__FILE__); })CODE",
     R"CODE(void @a(bool @c) { QString @b = QStringLiteral(__FILE__); })CODE"},
    {"qstring-allocations", D14, R"CODE(QString @a() { return "$"; })CODE",
     R"CODE(QString @a() { return QStringLiteral("$"); })CODE"},
    {"qstring-allocations", D14, R"CODE(#define M "$"
QString @a() { return M; } void @b() { QString @c = M; take(M); })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(#define M(x) QString(x)
QString @a() { return M("$"); })CODE",
     nullptr},
    {"qstring-allocations", D14, R"CODE(struct Foo { QString @b = "$"; Foo() : @b("x") {} };)CODE",
     R"CODE(struct Foo { QString @b = QStringLiteral("$"); Foo() : @b(QStringLiteral("x")) {} };)CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(const QString &@b = "$");)CODE",
     R"CODE(void @a(const QString &@b = QStringLiteral("$"));)CODE"},
    {"qstring-allocations", D14, R"CODE(void @a(const QString &@b = QString("$"));)CODE",
     R"CODE(void @a(const QString &@b = QStringLiteral("$"));)CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b^1.^2arg^3(^4@c^5)^6.^7arg^8(^9@d^A)^B; })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b^1.^2arg(@c, @d)^B; })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c).arg(@d).arg("$"); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d, "$"); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d).arg("$"); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d, "$"); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { QString("%1").arg(@c).arg(@d); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { QString("%1").arg(@c, @d); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { (@b.arg(@c)).arg(@d); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c).arg(1).arg(@d); })CODE",
     nullptr},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c).arg(@d).arg(1); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d).arg(1); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c + 0).arg(@d); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c + 0, @d); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, 3).arg(@d); })CODE",
     nullptr},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c).arg((@c, @d)); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg(@c, (@c, @d)); })CODE"},
    {"qstring-arg", D15, R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg("x,)").arg(@d); })CODE",
     R"CODE(QString operator+(QString, int); void @a(QString @b, QString @c, QString @d) { @b.arg("x,)", @d); })CODE"},
    {"qstring-arg", D15, R"CODE(void @a(QString *@b, QString @c, QString @d) { @b->arg(@c).arg(@d); })CODE",
     R"CODE(void @a(QString *@b, QString @c, QString @d) { @b->arg(@c, @d); })CODE"},
    {"qstring-arg", D15, R"CODE(#define A(x) arg(x)
void @a(QString @b, QString @c, QString @d) { @b.A(@c).A(@d); })CODE",
     R"CODE(#define A(x) arg(x)
void @a(QString @b, QString @c, QString @d) { @b.arg(@c, @d); })CODE"},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(^1this^2,^3SIGNAL(sig1(int))^7,^8@b^9,^ASLOT(slt1())^G); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(@b, SIGNAL(sig1(int)), SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { @b->connect(@b, SIGNAL(sig1(int)), SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { QObject::connect(this,SIGNAL(sig1(int)),@b,SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SIGNAL(sig1(int))); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { disconnect(this, SIGNAL(sig1(int)), @b, SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, @b, SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, this, SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SLOT(over(int))); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(this, "2sig1(int)", @b, "1slt1()"); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SLOT(nosuch())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect((this), SIGNAL(sig1(int)), (@b), SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { connect(static_cast<Obj *>(this), SIGNAL(sig1(int)), &*@b, SLOT(slt1())); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(void Obj::g(Obj *@b) { (void)connect(this, SIGNAL( sig1(int) ), @b, SLOT( slt1() )); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(#define CON(s) connect(this, SIGNAL(s), @b, SLOT(slt1()))
void Obj::g(Obj *@b) { CON(sig1(int)); })CODE",
     nullptr},
    {"old-style-connect", D16, R"CODE(namespace @c { struct In : QObject { void sx(); void g(In *@b) { connect(this, SIGNAL(sx()), @b, SLOT(sx())); } }; } void @a(@c::In *@b) { QObject::connect(@b, SIGNAL(sx()), @b, SLOT(sx())); })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const My &@a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const ns::My &@a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My *@a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My *@a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const`1My^2&^3@a, My &&@b); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const`1ns::My^2&^3@a, ns::My &&@b); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<My> @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<ns::My> @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const QList<My> &@a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(const QList<ns::My> &@a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<My *> @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<ns::My*> @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QMap<int,^1My> @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QMap<int, ns::My> @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QMap<My,QList<My>> @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QMap<ns::My, QList<ns::My>> @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(Alias @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::Alias @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(::ns::My @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(Outer::In @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::Outer::In @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(enum En @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::En @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(struct My @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My @a = My()); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a = My()); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(int @a, My @b); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(int @a, ns::My @b); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My @a, My @b); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My @a, ns::My @b); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My const &@a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::My const &@a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My **@a); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(My (&@a)[3]); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<ns::My> @a); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(In2 @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::Obj::In2 @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(Obj::In2 @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(ns::Obj::In2 @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<const My *> @a); }; })CODE",
     R"CODE(namespace ns { struct My {}; enum En { e }; typedef My Alias; struct Outer { struct In {}; }; struct Obj : QObject { Q_OBJECT public: struct In2 {}; Q_SIGNALS: void s(QList<const ns::My*> @a); }; })CODE"},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My @a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE const My &@a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My *@a() const; }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE QList<My> @a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE virtual My @a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE static My @a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D17, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE auto @a() -> My; }; })CODE",
     nullptr},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { @b^1.^2mid^3(^41^5)^6.^7toInt^8(^9)^A; })CODE",
     R"CODE(void @a(QString @b) { @b^1.^2midRef^3(^41^5)^6.^7toInt^8(^9)^A; })CODE"},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { @b.right(@b.size()).isEmpty(); })CODE",
     R"CODE(void @a(QString @b) { @b.rightRef(@b.size()).isEmpty(); })CODE"},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { @b.append(@b^1.^2mid^3(1^4, 2)); })CODE",
     R"CODE(void @a(QString @b) { @b.append(@b^1.^2midRef^3(1^4, 2)); })CODE"},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { (@b.mid(1)).toInt(); })CODE",
     R"CODE(void @a(QString @b) { (@b.midRef(1)).toInt(); })CODE"},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { @b.mid(1).left(2).toInt(); })CODE",
     R"CODE(void @a(QString @b) { @b.mid(1).leftRef(2).toInt(); })CODE"},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { @b.mid(1) == @b; })CODE",
     nullptr},
    {"qstring-ref", D18, R"CODE(void @a(QString @b) { take(@b.mid(1)); })CODE",
     nullptr},
    {"qstring-ref", D18, R"CODE(void @a(QString *@b) { @b->mid(1).toInt(); (*@b).left(2).toInt(); })CODE",
     R"CODE(void @a(QString *@b) { @b->midRef(1).toInt(); (*@b).leftRef(2).toInt(); })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My`1@a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE ns::My`1@a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE const`1My^2&^3@a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE const`1ns::My^2&^3@a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My const^1&@a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE ns::My const^1&@a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My^1*^2@a() const; }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE ns::My^1*^2@a() const; }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE QList<My> @a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE QList<ns::My> @a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE virtual My @a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE virtual ns::My @a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE static My @a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE static ns::My @a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE auto @a() -> My; }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE const QList<const My *> &@a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE const QList<const ns::My*> &@a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE QList<const ns::My *> @a(); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE My const * @a(); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE ns::My const * @a(); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(QList<const My *> @b); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(QList<const ns::My*> @b); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(QList<const ns::My *> @b); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(My const^1&^2@b); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(ns::My const^1&^2@b); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(const`1My^2&^3@b,^4My^5&&@c); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(const`1ns::My^2&^3@b,^4ns::My^5&&@c); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(My **@b); }; })CODE",
     nullptr},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(QMap<int, const My &> @b); }; })CODE",
     R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(QMap<int, const ns::My&> @b); }; })CODE"},
    {"fully-qualified-moc-types", D19, R"CODE(namespace ns { struct My {}; struct Obj : QObject { Q_OBJECT public: Q_INVOKABLE int @a(const ns::My &@b); }; })CODE",
     nullptr},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(^1this^2,^3SIGNAL(sig1(int))^7,^8@b^9,^ASLOT(slt1())^G); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(^1this^2,^3&Obj::sig1^7,^8@b^9,^A&Obj::slt1^G); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(@b, SIGNAL(sig1(int)), SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(@b, &Obj::sig1, this, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { @b->connect(@b, SIGNAL(sig1(int)), SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { @b->connect(@b, &Obj::sig1, @b, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { QObject::connect(this,SIGNAL(sig1(int)),@b,SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { QObject::connect(this,&Obj::sig1,@b,&Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SIGNAL(sig1(int))); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(this, &Obj::sig1, @b, &Obj::sig1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { disconnect(this, SIGNAL(sig1(int)), @b, SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { disconnect(this, &Obj::sig1, @b, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, @b, SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, @b, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, this, SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { QTimer::singleShot(0, this, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SLOT(over(int))); })CODE",
     nullptr},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(this, "2sig1(int)", @b, "1slt1()"); })CODE",
     nullptr},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(this, SIGNAL(sig1(int)), @b, SLOT(nosuch())); })CODE",
     nullptr},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect((this), SIGNAL(sig1(int)), (@b), SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect((this), &Obj::sig1, (@b), &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { connect(static_cast<Obj *>(this), SIGNAL(sig1(int)), &*@b, SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { connect(static_cast<Obj *>(this), &Obj::sig1, &*@b, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { (void)connect(this, SIGNAL( sig1(int) ), @b, SLOT( slt1() )); })CODE",
     R"CODE(void Obj::g(Obj *@b) { (void)connect(this, &Obj::sig1, @b, &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(void Obj::g(Obj *@b) { QPointer<Obj> p; connect(p^1,^2SIGNAL(sig1(int)), p, SLOT(slt1())); })CODE",
     R"CODE(void Obj::g(Obj *@b) { QPointer<Obj> p; connect(p.data()^1,^2&Obj::sig1, p.data(), &Obj::slt1); })CODE"},
    {"old-style-connect", D20, R"CODE(#define CON(s) connect(this, SIGNAL(s), @b, SLOT(slt1()))
void Obj::g(Obj *@b) { CON(sig1(int)); })CODE",
     nullptr},
    {"old-style-connect", D20, R"CODE(namespace @c { struct In : QObject { Q_SIGNALS: void sx(); void g(In *@b) { connect(this, SIGNAL(sx()), @b, SLOT(sx())); } }; } void @a(@c::In *@b) { QObject::connect(@b, SIGNAL(sx()), @b, SIGNAL(sx())); })CODE",
     R"CODE(namespace @c { struct In : QObject { Q_SIGNALS: void sx(); void g(In *@b) { connect(this, SIGNAL(sx()), @b, SLOT(sx())); } }; } void @a(@c::In *@b) { QObject::connect(@b, &@c::In::sx, @b, &@c::In::sx); })CODE"},
};
