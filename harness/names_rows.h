#define BOX "template <typename T> struct Iter { T *p; };\n"
#define SIGNALS "#define signals public\n#define slots\nstruct QObject { virtual ~QObject(); };\n"
const Row ROWS[] = {
    {"raw-environment-function", "char *@(const char *);", "@(\"A=1\")", "putenv getenv", "Prefer using q@ instead of @"},
    {"qstring-left", "struct QString { QString @(int); } s;", "s.@(0)", "left", "QString::left(0) returns an empty string"},
    {"qstring-left", "struct @ { int left(int); } s;", "s.left(1)", "QString", "Use QString::at(0) instead"},
    {"lowercase-qml-type-name", "int @(const char *, int, int, const char *);", "@(\"Module\", 1, 0, \"name\")", "qmlRegisterType qmlRegisterUncreatableType", "QML types must begin with uppercase"},
    {"qdeleteall", "template <typename T> void @(const T &); struct QHash { int values() const; } h;", "@(h.values())", "qDeleteAll", "qDeleteAll() is being used on an unnecessary temporary container created by QHash::values(), use qDeleteAll(mycontainer) instead"},
    {"qdeleteall", "template <typename T> void qDeleteAll(const T &); struct @ { int keys() const; } h;", "qDeleteAll(h.keys())", "QSet QMap QHash QMultiHash QMultiMap", "qDeleteAll() is being used on an unnecessary temporary container created by @::keys()"},
    {"qdeleteall", "template <typename T> void qDeleteAll(const T &); struct QMultiMap { int @() const; } h;", "qDeleteAll(h.@())", "keys values", "qDeleteAll() is being used on an unnecessary temporary container created by QMultiMap::@(), use qDeleteAll(mycontainer"},
    {"qgetenv", "struct @ { bool isNull() const; }; @ qgetenv(const char *);", "qgetenv(\"V\").isNull()", "QByteArray=qEnvironmentVariableIsSet(\"V\")", "qgetenv().isNull() allocates. Use qEnvironmentVariableIsSet() instead", "qgetenv(\"V\").isNull()"},
    {"qgetenv", "struct QByteArray { bool isEmpty() const; }; QByteArray @(const char *);", "@(\"V\").isEmpty()", "qgetenv", "qgetenv().isEmpty() allocates. Use qEnvironmentVariableIsEmpty() instead", "@(\"V\").isEmpty()"},
    {"qgetenv", "struct QByteArray { int @(bool *ok = nullptr, int base = 10) const; }; QByteArray qgetenv(const char *);", "qgetenv(\"V\").@()", "isEmpty=qEnvironmentVariableIsEmpty(\"V\") isNull=qEnvironmentVariableIsSet(\"V\") toInt=qEnvironmentVariableIntValue(\"V\")", "qgetenv().@() ", "qgetenv(\"V\").@()"},
    {"isempty-vs-count", "struct @ { int size() const; } c;", "(bool)c.size()", "QListSpecialMethods=!c.isEmpty() QListSpecialMethodsBase=!c.isEmpty() QList=!c.isEmpty() QVector=!c.isEmpty() QVarLengthArray=!c.isEmpty() QMap=!c.isEmpty() QHash=!c.isEmpty() QMultiMap=!c.isEmpty() QMultiHash=!c.isEmpty() QSet=!c.isEmpty() QStack=!c.isEmpty() QQueue=!c.isEmpty() QString=!c.isEmpty() QStringRef=!c.isEmpty() QByteArray=!c.isEmpty() QSequentialIterable=!c.isEmpty() QAssociativeIterable=!c.isEmpty() QJsonArray=!c.isEmpty() QJsonObject=!c.isEmpty() QLinkedList=!c.isEmpty()", "use isEmpty() instead", "c.size()"},
    {"isempty-vs-count", "struct QStack { int @() const; } c;", "!c.@()", "size=c.isEmpty() count=c.isEmpty() length=c.isEmpty()", "use isEmpty() instead", "!c.@()"},
    {"isempty-vs-count", "struct @ { int count(int) const; } c;", "(bool)c.count(3)", "QHash=contains QMap=contains QMultiHash=contains QMultiMap=contains QListSpecialMethods=!c.isEmpty() QListSpecialMethodsBase=!c.isEmpty() QList=!c.isEmpty() QVector=!c.isEmpty() QVarLengthArray=!c.isEmpty() QSet=!c.isEmpty() QStack=!c.isEmpty() QQueue=!c.isEmpty() QString=!c.isEmpty() QStringRef=!c.isEmpty() QByteArray=!c.isEmpty() QSequentialIterable=!c.isEmpty() QAssociativeIterable=!c.isEmpty() QJsonArray=!c.isEmpty() QJsonObject=!c.isEmpty() QLinkedList=!c.isEmpty()", nullptr},
    {"isempty-vs-count", "struct @ { ~@(); int size() const; }; @ get(); void test() { bool b = get().size() == 0; }", nullptr, "QList=get().isEmpty() QHash=get().isEmpty() QMap=get().isEmpty() QMultiHash=get().isEmpty() QMultiMap=get().isEmpty()", "use isEmpty() instead", "get().size() == 0"},
    {"container-anti-pattern", "struct QVector { QVector @() const; int count() const; } c;", "c.@().count()", "toList", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QList { QList @() const; int count() const; } c;", "c.@().count()", "toList toVector", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QMap { QMap @() const; int count() const; } c;", "c.@().count()", "keys values", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QSet { QSet @() const; int count() const; } c;", "c.@().count()", "toList values", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QHash { QHash @() const; int count() const; } c;", "c.@().count()", "keys values", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct @ { @ toList() const; int count() const; } c;", "c.toList().count()", "QVector QSet QList", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct @ { @ values() const; int count() const; } c;", "c.values().count()", "QMap QSet QHash", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QList { int *begin() const; int *end() const; }; struct QMap { QList @() const; } c; void test() { for (int i : c.@()) {} }", nullptr, "keys values", "allocating an unneeded temporary container"},
    {"container-anti-pattern", "struct QSet { QSet @(const QSet &); bool isEmpty() const; } a, b;", "a.@(b).isEmpty()", "intersect toList values", nullptr},
    {"container-anti-pattern", "struct @ { @ intersect(const @ &); bool isEmpty() const; } a, b;", "a.intersect(b).isEmpty()", "QSet", "Use QSet::intersects() instead"},
    {"isempty-vs-count", "struct @ { int length() const; } c; bool global = c.length();", nullptr, "QList=!c.isEmpty() QString=!c.isEmpty() QByteArray=!c.isEmpty() QStringRef=!c.isEmpty() QSet=!c.isEmpty() QMap=!c.isEmpty() QHash=!c.isEmpty() QVector=!c.isEmpty() QStack=!c.isEmpty() QQueue=!c.isEmpty() QMultiMap=!c.isEmpty() QMultiHash=!c.isEmpty() QJsonArray=!c.isEmpty() QJsonObject=!c.isEmpty() QLinkedList=!c.isEmpty() QVarLengthArray=!c.isEmpty() QSequentialIterable=!c.isEmpty() QAssociativeIterable=!c.isEmpty() QListSpecialMethods=!c.isEmpty() QListSpecialMethodsBase=!c.isEmpty()", "use isEmpty() instead", "c.length()"},
    {"isempty-vs-count", "struct QList { ~QList(); int @() const; }; QList get(); void test() { bool b = get().@() > 0; }", nullptr, "size=!get().isEmpty() count=!get().isEmpty() length=!get().isEmpty()", "use isEmpty() instead", "get().@() > 0"},
    {"detaching-temporary", "struct QList { int @(); }; QList get();", "get().@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast takeAt=- takeFirst=- takeLast=- removeOne=- removeAll=- erase=-", "Don't call QList::@() on temporary", "@"},
    {"detaching-member", "struct QList { int @(); }; struct Owner { QList m; } o;", "o.m.@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast", "Potential detachment due to calling QList::@()", "@"},
    {"detaching-temporary", "struct QVector { int @(); }; QVector get();", "get().@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData fill=- insert=-", "Don't call QVector::@() on temporary", "@"},
    {"detaching-member", "struct QVector { int @(); }; struct Owner { QVector m; } o;", "o.m.@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData", "Potential detachment due to calling QVector::@()", "@"},
    {"detaching-temporary", "struct QLinkedList { int @(); }; QLinkedList get();", "get().@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast takeFirst=- takeLast=- removeOne=- removeAll=- erase=-", "Don't call QLinkedList::@() on temporary", "@"},
    {"detaching-member", "struct QLinkedList { int @(); }; struct Owner { QLinkedList m; } o;", "o.m.@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast", "Potential detachment due to calling QLinkedList::@()", "@"},
    {"detaching-temporary", "struct QStack { int @(); }; QStack get();", "get().@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData top=- push=- swap=-", "Don't call QStack::@() on temporary", "@"},
    {"detaching-member", "struct QStack { int @(); }; struct Owner { QStack m; } o;", "o.m.@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData top=-", "Potential detachment due to calling QStack::@()", "@"},
    {"detaching-temporary", "struct QQueue { int @(); }; QQueue get();", "get().@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData head=- enqueue=- swap=-", "Don't call QQueue::@() on temporary", "@"},
    {"detaching-member", "struct QQueue { int @(); }; struct Owner { QQueue m; } o;", "o.m.@()", "first=constFirst last=constLast begin=cbegin end=cend rbegin=crbegin rend=crend front=constFirst back=constLast data=constData head=-", "Potential detachment due to calling QQueue::@()", "@"},
    {"detaching-temporary", "struct QMap { int @(); }; QMap get();", "get().@()", "begin=cbegin end=cend first=constFirst find=constFind last=constLast lowerBound=- upperBound=- keyValueBegin=constKeyValueBegin keyValueEnd=constKeyValueEnd erase=- insert=- insertMulti=- remove=- take=-", "Don't call QMap::@() on temporary", "@"},
    {"detaching-member", "struct QMap { int @(); }; struct Owner { QMap m; } o;", "o.m.@()", "begin=cbegin end=cend first=constFirst find=constFind last=constLast lowerBound=- upperBound=- keyValueBegin=constKeyValueBegin keyValueEnd=constKeyValueEnd", "Potential detachment due to calling QMap::@()", "@"},
    {"detaching-temporary", "struct QMultiMap { int @(); }; QMultiMap get();", "get().@()", "begin=cbegin end=cend first=constFirst find=constFind last=constLast lowerBound=- upperBound=- keyValueBegin=constKeyValueBegin keyValueEnd=constKeyValueEnd erase=- insert=- insertMulti=- remove=- take=-", "Don't call QMultiMap::@() on temporary", "@"},
    {"detaching-member", "struct QMultiMap { int @(); }; struct Owner { QMultiMap m; } o;", "o.m.@()", "begin=cbegin end=cend first=constFirst find=constFind last=constLast lowerBound=- upperBound=- keyValueBegin=constKeyValueBegin keyValueEnd=constKeyValueEnd", "Potential detachment due to calling QMultiMap::@()", "@"},
    {"detaching-temporary", "struct QHash { int @(); }; QHash get();", "get().@()", "begin=cbegin end=cend find=constFind erase=- insert=- insertMulti=- remove=- take=-", "Don't call QHash::@() on temporary", "@"},
    {"detaching-member", "struct QHash { int @(); }; struct Owner { QHash m; } o;", "o.m.@()", "begin=cbegin end=cend find=constFind", "Potential detachment due to calling QHash::@()", "@"},
    {"detaching-temporary", "struct QMultiHash { int @(); }; QMultiHash get();", "get().@()", "begin=cbegin end=cend find=constFind erase=- insert=- insertMulti=- remove=- take=-", "Don't call QMultiHash::@() on temporary", "@"},
    {"detaching-member", "struct QMultiHash { int @(); }; struct Owner { QMultiHash m; } o;", "o.m.@()", "begin=cbegin end=cend find=constFind", "Potential detachment due to calling QMultiHash::@()", "@"},
    {"detaching-temporary", "struct QSet { int @(); }; QSet get();", "get().@()", "begin=cbegin end=cend find=constFind erase=- insert=-", "Don't call QSet::@() on temporary", "@"},
    {"detaching-member", "struct QSet { int @(); }; struct Owner { QSet m; } o;", "o.m.@()", "begin=cbegin end=cend find=constFind", "Potential detachment due to calling QSet::@()", "@"},
    {"detaching-temporary", "struct QString { int @(); }; QString get();", "get().@()", "begin=cbegin end=cend rbegin=crbegin rend=crend data=constData push_back=- push_front=- clear=- chop=-", "Don't call QString::@() on temporary", "@"},
    {"detaching-member", "struct QString { int @(); }; struct Owner { QString m; } o;", "o.m.@()", "begin=cbegin end=cend rbegin=crbegin rend=crend data=constData", "Potential detachment due to calling QString::@()", "@"},
    {"detaching-temporary", "struct QByteArray { int @(); }; QByteArray get();", "get().@()", "begin=cbegin end=cend rbegin=crbegin rend=crend data=constData", "Don't call QByteArray::@() on temporary", "@"},
    {"detaching-member", "struct QByteArray { int @(); }; struct Owner { QByteArray m; } o;", "o.m.@()", "begin=cbegin end=cend rbegin=crbegin rend=crend data=constData", "Potential detachment due to calling QByteArray::@()", "@"},
    {"detaching-temporary", "struct QImage { int @(); }; QImage get();", "get().@()", "bits=constBits scanLine=constScanLine", "Don't call QImage::@() on temporary", "@"},
    {"detaching-member", "struct QImage { int @(); }; struct Owner { QImage m; } o;", "o.m.@()", "bits=constBits scanLine=constScanLine", "Potential detachment due to calling QImage::@()", "@"},
    {"detaching-temporary", "struct QJsonObject { int @(); }; QJsonObject get();", "get().@()", "begin=cbegin end=cend find=constFind", "Don't call QJsonObject::@() on temporary", "@"},
    {"detaching-member", "struct QJsonObject { int @(); }; struct Owner { QJsonObject m; } o;", "o.m.@()", "begin=cbegin end=cend find=constFind", "Potential detachment due to calling QJsonObject::@()", "@"},
    {"detaching-temporary", "struct QStringList { void @(); }; QStringList get();", "get().@()", "sort=- replaceInStrings=- removeDuplicates=-", "Modifying temporary container is pointless and it also detaches"},
    {"detaching-temporary", "struct @ { int begin(); }; @ get();", "get().begin()", "QList QVector QLinkedList QStack QQueue QMap QMultiMap QHash QMultiHash QSet QString QByteArray QJsonObject", "Don't call @::begin() on temporary", "begin"},
    {"detaching-temporary", "struct @ { int data(); }; @ get();", "get().data()", "QVector QStack QQueue QString QByteArray", "Don't call @::data() on temporary", "data"},
    {"detaching-temporary", "struct @ { int front(); }; @ get();", "get().front()", "QList QVector QLinkedList QStack QQueue", "Don't call @::front() on temporary", "front"},
    {"detaching-temporary", "struct @ { int takeAt(); }; @ get();", "get().takeAt()", "QList", "Don't call @::takeAt() on temporary"},
    {"detaching-temporary", "struct @ { int insert(); }; @ get();", "get().insert()", "QVector QMap QMultiMap QHash QMultiHash QSet", "Don't call @::insert() on temporary"},
    {"detaching-temporary", "struct @ { int erase(); }; @ get();", "get().erase()", "QList QLinkedList QMap QMultiMap QHash QMultiHash QSet", "Don't call @::erase() on temporary"},
    {"detaching-temporary", "struct @ { int swap(); }; @ get();", "get().swap()", "QStack QQueue", "Don't call @::swap() on temporary"},
    {"detaching-temporary", "struct @ { int fill(); }; @ get();", "get().fill()", "QVector", "Don't call @::fill() on temporary"},
    {"detaching-temporary", "struct @ { int bits(); }; @ get();", "get().bits()", "QImage", "Don't call @::bits() on temporary", "bits"},
    {"detaching-temporary", "struct @ { int removeDuplicates(); }; @ get();", "get().removeDuplicates()", "QListSpecialMethods QStringList", "Don't call @::removeDuplicates() on temporary"},
    {"detaching-member", "struct @ { int end(); }; struct Owner { @ m; } o;", "o.m.end()", "QList QVector QLinkedList QStack QQueue QMap QMultiMap QHash QMultiHash QSet QString QByteArray QJsonObject", "Potential detachment due to calling @::end()", "end"},
    {"detaching-member", "struct @ { int data(); }; struct Owner { @ m; } o;", "o.m.data()", "QVector QStack QQueue QString QByteArray", "Potential detachment due to calling @::data()", "data"},
    {"detaching-member", "struct @ { int last(); }; struct Owner { @ m; } o;", "o.m.last()", "QList QVector QLinkedList QStack QQueue QMap QMultiMap", "Potential detachment due to calling @::last()", "last"},
    {"detaching-member", "struct @ { int find(); }; struct Owner { @ m; } o;", "o.m.find()", "QMap QMultiMap QHash QMultiHash QSet QJsonObject", "Potential detachment due to calling @::find()", "find"},
    {"detaching-member", "struct @ { int scanLine(); }; struct Owner { @ m; } o;", "o.m.scanLine()", "QImage", "Potential detachment due to calling @::scanLine()", "scanLine"},
    {"detaching-temporary", "struct QList { int first(); }; struct QMap { QList @() const; } m;", "m.@().first()", "!keys values", nullptr, "first"},
    {"detaching-temporary", "struct QList { int first(); }; struct QHash { QList @() const; } m;", "m.@().first()", "!keys values", nullptr, "first"},
    {"detaching-temporary", "struct QList { int first(); }; struct @ { QList keys() const; } m;", "m.keys().first()", "!QMap QHash QString QByteArray QGlobalStatic", nullptr, "first"},
    {"detaching-temporary", "struct QList { int first(); }; struct QMimeData { QList @() const; } m;", "m.@().first()", "!formats", nullptr, "first"},
    {"detaching-temporary", "struct QList { int first(); }; QList @(int);", "@(1).first()", "!i18n", nullptr, "first"},
    {"detaching-temporary", "struct QList { int first(); }; struct @ { QList selectedIndexes() const; } m;", "m.selectedIndexes().first()", "!QItemSelectionModel QAbstractItemView QString QByteArray QGlobalStatic", nullptr, "first"},
    {"temporary-iterator", "struct vector { int *@() const; }; vector get();", "get().@()", "begin end cbegin cend", "Don't call vector::@() on temporary"},
    {"temporary-iterator", "struct QList { int *@() const; }; QList get();", "get().@()", "begin end constBegin constEnd cbegin cend", "Don't call QList::@() on temporary"},
    {"temporary-iterator", "struct QVector { int *@() const; }; QVector get();", "get().@()", "begin end constBegin constEnd cbegin cend insert", "Don't call QVector::@() on temporary"},
    {"temporary-iterator", "struct QMap { int *@() const; }; QMap get();", "get().@()", "begin end constBegin constEnd cbegin cend find constFind lowerBound upperBound equal_range", "Don't call QMap::@() on temporary"},
    {"temporary-iterator", "struct QHash { int *@() const; }; QHash get();", "get().@()", "begin end constBegin constEnd cbegin cend find constFind insert insertMulti", "Don't call QHash::@() on temporary"},
    {"temporary-iterator", "struct QLinkedList { int *@() const; }; QLinkedList get();", "get().@()", "begin end constBegin constEnd cbegin cend", "Don't call QLinkedList::@() on temporary"},
    {"temporary-iterator", "struct QSet { int *@() const; }; QSet get();", "get().@()", "begin end constBegin constEnd cbegin cend find constFind", "Don't call QSet::@() on temporary"},
    {"temporary-iterator", "struct QStack { int *@() const; }; QStack get();", "get().@()", "begin end constBegin constEnd cbegin cend insert", "Don't call QStack::@() on temporary"},
    {"temporary-iterator", "struct QQueue { int *@() const; }; QQueue get();", "get().@()", "begin end constBegin constEnd cbegin cend", "Don't call QQueue::@() on temporary"},
    {"temporary-iterator", "struct QMultiMap { int *@() const; }; QMultiMap get();", "get().@()", "begin end constBegin constEnd cbegin cend find constFind lowerBound upperBound equal_range", "Don't call QMultiMap::@() on temporary"},
    {"temporary-iterator", "struct QMultiHash { int *@() const; }; QMultiHash get();", "get().@()", "begin end constBegin constEnd cbegin cend find constFind insert insertMulti", "Don't call QMultiHash::@() on temporary"},
    {"temporary-iterator", "struct @ { int *begin() const; }; @ get();", "get().begin()", "vector QList QVector QMap QHash QLinkedList QSet QStack QQueue QMultiMap QMultiHash", "Don't call @::begin() on temporary"},
    {"temporary-iterator", "struct @ { int *constEnd() const; }; @ get();", "get().constEnd()", "QList QVector QMap QHash QLinkedList QSet QStack QQueue QMultiMap QMultiHash", "Don't call @::constEnd() on temporary"},
    {"temporary-iterator", "struct @ { int *find() const; }; @ get();", "get().find()", "QMap QHash QSet QMultiMap QMultiHash", "Don't call @::find() on temporary"},
    {"temporary-iterator", "struct @ { int *insert() const; }; @ get();", "get().insert()", "QVector QHash QStack QMultiHash", "Don't call @::insert() on temporary"},
    {"temporary-iterator", "struct @ { int *insertMulti() const; }; @ get();", "get().insertMulti()", "QHash QMultiHash", "Don't call @::insertMulti() on temporary"},
    {"temporary-iterator", "struct @ { int *lowerBound() const; }; @ get();", "get().lowerBound()", "QMap QMultiMap", "Don't call @::lowerBound() on temporary"},
    {"temporary-iterator", "struct QList { int *begin() const; }; struct @ { QList toList() const; } v;", "v.toList().begin()", "!QVariant", nullptr},
    {"temporary-iterator", "struct QList { int *begin() const; }; struct QVariant { QList @() const; } v;", "v.@().begin()", "!toList", nullptr},
    {"writing-to-temporary", "struct @ { void clear(); }; @ get();", "get().clear()", "QList QVector QMap QHash QString QSet QByteArray QUrl QVarLengthArray QLinkedList QRect QRectF QBitmap QVector2D QVector3D QVector4D QSize QSizeF QSizePolicy QPoint QPointF QColor", "Call to temporary is a no-op: @::clear"},
    {"writing-to-temporary", "struct @ { void setX(); }; @ get();", "get().setX()", "!QTextCursor QDomElement KConfigGroup QWebElement QScriptValue QTextLine QTextBlock QDomNode QJSValue QTextTableCell", "Call to temporary is a no-op: @::setX"},
    {"writing-to-temporary", "struct Other { void @(); }; Other get();", "get().@()", "set*", "Call to temporary is a no-op: Other::@"},
    {"writing-to-temporary", "struct QColor { void @(); }; QColor get();", "get().@()", "!getCmyk getCmykF", "Call to temporary is a no-op: QColor::@"},
    {"writing-to-temporary", "struct @ { void clear(); }; @ get();", "get().clear()", "!QTextCursor QDomElement KConfigGroup QWebElement QScriptValue QTextLine QTextBlock QDomNode QJSValue QTextTableCell", nullptr, nullptr, "CLAZY_EXTRA_OPTIONS", "writing-to-temporary-widen-criteria"},
    {"unused-non-trivial-variable", "struct @ { @(); ~@(); }; void test() { @ var; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QVarLengthArray QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList QColor QVariant QFont QUrl QIcon QImage QPixmap QPicture QBitmap QBrush QPen QBuffer QCache QDateTime QDir QEvent QFileInfo QFontInfo QFontMetrics QJSValue QLocale QRegularExpression QRegExp QUrlQuery QStorageInfo QPersistentModelIndex QJsonArray QJsonValue QJsonDocument QMimeType QBitArray QCollator QByteArrayList QCollatorSortKey QCursor QPalette QPainterPath QRegion QTextCursor QStaticText QFontMetricsF QTextFrameFormat QTextImageFormat QNetworkCookie QNetworkRequest QNetworkConfiguration QHostAddress QSqlQuery QSqlRecord QSqlField QLine QLineF QRect QRectF QDomNode", "unused @ var"},
    {"unused-non-trivial-variable", "struct @ { @(); ~@(); }; void test() { @ var; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QVarLengthArray QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList QColor QVariant QFont QUrl QIcon QImage QPixmap QPicture QBitmap QBrush QPen QBuffer QCache QDateTime QDir QEvent QFileInfo QFontInfo QFontMetrics QJSValue QLocale QRegularExpression QRegExp QUrlQuery QStorageInfo QPersistentModelIndex QJsonArray QJsonValue QJsonDocument QMimeType QBitArray QCollator QByteArrayList QCollatorSortKey QCursor QPalette QPainterPath QRegion QTextCursor QStaticText QFontMetricsF QTextFrameFormat QTextImageFormat QNetworkCookie QNetworkRequest QNetworkConfiguration QHostAddress QSqlQuery QSqlRecord QSqlField QLine QLineF QRect QRectF QDomNode My Mine", nullptr, nullptr, "CLAZY_UNUSED_NON_TRIVIAL_VARIABLE_WHITELIST", "My,Mine"},
    {"unused-non-trivial-variable", "struct @ { @(); ~@(); }; void test() { @ var; }", nullptr, "!QMutexLocker QDebugStateSaver QTextBlockFormat QWriteLocker QSignalBlocker QReadLocker PRNGLocker QDBusWriteLocker QDBusBlockingCallWatcher QBoolBlocker QOrderedMutexLocker QTextLine QScopedScopeLevelCounter QScopedPointer* QSetValueOnDestroy* QScopedValueRollback* QScopeGuard*", "unused @ var", nullptr, "CLAZY_EXTRA_OPTIONS", "unused-non-trivial-variable-no-whitelist"},
    {"mutable-container-key", "template <typename K, typename V> struct @ {}; struct QPointer {}; @<QPointer, int> m;", nullptr, "QMap QHash", "Associative container key might be modified externally"},
    {"mutable-container-key", "template <typename K, typename V> struct QMap {}; struct @ {}; void test() { QMap<@, int> m; }", nullptr, "QPointer QWeakPointer QPersistentModelIndex weak_ptr", "Associative container key might be modified externally"},
    {"qmap-with-pointer-key", "template <typename K, typename V> struct @ {}; struct Owner { @<Owner *, int> *p; }; void test() { @<int *, int> m; }", nullptr, "QMap", "Use QHash<K,T> instead of QMap<K,T> when K is a pointer"},
    {"qhash-with-char-pointer-key", "template <typename K, typename V> struct @ {}; void test() { static @<const char *, int> m; }", nullptr, "QHash", "Using QHash<const char *, T> is dangerous"},
    {"qhash-namespace", "namespace n { struct S {}; } int @(n::S);", nullptr, "qHash", "Move qHash(n::S) into n namespace for ADL lookup"},
    {"qdatetime-utc", "struct QDateTime { static QDateTime @(); QDateTime toUTC() const; };", "QDateTime::@().toUTC()", "currentDateTime currentDateTimeUtc", "Use QDateTime::currentDateTimeUtc() instead. It is significantly faster", "QDateTime::@().toUTC()"},
    {"qdatetime-utc", "struct QDateTime { static QDateTime currentDateTime(); QDateTime @() const; };", "QDateTime::currentDateTime().@()", "toUTC toMSecsSinceEpoch toSecsSinceEpoch toTime_t", "Use QDateTime::current", "QDateTime::currentDateTime().@()"},
    {"qdatetime-utc", "struct @ { static @ currentDateTime(); long toSecsSinceEpoch() const; };", "@::currentDateTime().toSecsSinceEpoch()", "QDateTime", "Use QDateTime::currentSecsSinceEpoch() instead. It is significantly faster", "@::currentDateTime().toSecsSinceEpoch()"},
    {"qfileinfo-exists", "struct QString { QString(const char *); ~QString(); }; struct QFileInfo { QFileInfo(const QString &); bool @() const; }; QString name(\"x\");", "QFileInfo(name).@()", "exists", "Use the static QFileInfo::exists() instead", "QFileInfo(name).@()"},
    {"qfileinfo-exists", "struct QString { QString(const char *); ~QString(); }; struct @ { @(const QString &); bool exists() const; }; QString name(\"x\");", "@(name).exists()", "QFileInfo", "Use the static QFileInfo::exists() instead", "@(name).exists()"},
    {"child-event-qobject-cast", "struct QObject {}; template <typename T> T qobject_cast(QObject *); struct QChildEvent { QObject *child() const; }; struct My : QObject { void @(QChildEvent *e) { qobject_cast<My *>(e->child()); } };", nullptr, "event childEvent eventFilter", "qobject_cast in childEvent"},
    {"child-event-qobject-cast", "struct QObject {}; template <typename T> T @(QObject *); struct QChildEvent { QObject *child() const; }; struct My : QObject { void event(QChildEvent *e) { @<My *>(e->child()); } };", nullptr, "qobject_cast", "qobject_cast in childEvent"},
    {"child-event-qobject-cast", "struct QObject {}; template <typename T> T qobject_cast(QObject *); struct QChildEvent { QObject *@() const; }; struct My : QObject { void childEvent(QChildEvent *e) { qobject_cast<My *>(e->@()); } };", nullptr, "child", "qobject_cast in childEvent"},
    {"child-event-qobject-cast", "struct QObject {}; template <typename T> T qobject_cast(QObject *); struct @ { QObject *child() const; }; struct My : QObject { void childEvent(@ *e) { qobject_cast<My *>(e->child()); } };", nullptr, "QChildEvent", "qobject_cast in childEvent"},
    {"child-event-qobject-cast", "struct @ {}; template <typename T> T qobject_cast(@ *); struct QChildEvent { @ *child() const; }; struct My : @ { bool eventFilter(QChildEvent *e) { return qobject_cast<My *>(e->child()); } };", nullptr, "QObject", "qobject_cast in childEvent"},
    {"post-event", "struct QEvent {}; struct @ { static void postEvent(int *, QEvent *); }; void test() { QEvent e; @::postEvent(nullptr, &e); }", nullptr, "QCoreApplication", "Events passed to postEvent should be heap allocated"},
    {"post-event", "struct QEvent {}; struct QCoreApplication { static void @(int *, QEvent *); }; void test() { QEvent e; QCoreApplication::@(nullptr, &e); }", nullptr, "postEvent", "Events passed to postEvent should be heap allocated"},
    {"tr-non-literal", "struct @ { static int tr(const char *); }; const char *s;", "@::tr(s)", "QObject", "tr() without a literal string"},
    {"tr-non-literal", "struct QObject { static int @(const char *); }; const char *s;", "QObject::@(s)", "tr", "tr() without a literal string"},
    {"qvariant-template-instantiation", "struct @ { template <typename T> T value() const; } v;", "v.value<int>()", "QVariant QHash QMap", "Use QVariant::toInt() instead of QVariant::value<int>()"},
    {"qvariant-template-instantiation", "struct QVariant { template <typename T> T @() const; } v;", "v.@<bool>()", "value", "Use QVariant::toBool() instead of QVariant::value<bool>()"},
    {"qvariant-template-instantiation", "struct QVariant { template <typename T> T value() const; } v; class @ {};", "v.value<@>()", "QBitArray QByteArray QChar QDate QDateTime QEasingCurve QJsonArray QJsonDocument QJsonObject QJsonValue QLocale QModelIndex QPoint QPointF QRect QRectF QRegExp QString QRegularExpression QSize QSizeF QStringList QTime QUrl QUuid", nullptr},
    {"qstring-insensitive-allocation", "struct QString { QString @() const; bool contains(const QString &) const; } a, b;", "a.@().contains(b)", "toLower toUpper", "unneeded allocation"},
    {"qstring-insensitive-allocation", "struct QString { QString toLower() const; bool @(const QString &) const; } a, b;", "a.toLower().@(b)", "endsWith startsWith contains compare", "unneeded allocation"},
    {"qstring-insensitive-allocation", "struct @ { @ toLower() const; bool contains(const @ &) const; } a, b;", "a.toLower().contains(b)", "QString", "unneeded allocation"},
    {"install-event-filter", "struct QObject { void @(QObject *); virtual bool eventFilter(QObject *, int *); }; struct W : QObject { QObject *o; void f() { @(o); } };", nullptr, "installEventFilter", "'this' should usually be the filter object, not the monitored one."},
    {"install-event-filter", "struct @ { void installEventFilter(@ *); virtual bool eventFilter(@ *, int *); }; struct W : @ { @ *o; void f() { installEventFilter(o); } };", nullptr, "QObject", "'this' should usually be the filter object, not the monitored one."},
    {"returning-data-from-temporary", "struct QByteArray { ~QByteArray(); const char *@() const; }; QByteArray get(); const char *test() { return get().@(); }", nullptr, "data constData", "Returning data of temporary QByteArray"},
    {"returning-data-from-temporary", "struct @ { ~@(); const char *data() const; }; @ get(); const char *test() { return get().data(); }", nullptr, "QByteArray", "Returning data of temporary QByteArray"},
    {"base-class-event", "struct QObject { }; struct Base : QObject { }; struct D : Base { bool @() { return false; } };", nullptr, "event eventFilter", "Return Base::@() instead of false"},
    {"base-class-event", "struct QObject { }; struct @ : QObject { }; struct D : @ { bool event() { return false; } };", nullptr, "!1none", "Return @::event() instead of false"},
    {"base-class-event", "struct QObject { }; struct @ : QObject { }; struct D : @ { bool eventFilter() { return false; } };", nullptr, "!QWidget QObject", "Return @::eventFilter() instead of false"},
    {"base-class-event", "struct QObject { }; struct Base : QObject { }; struct @ : Base { bool event() { return false; } };", nullptr, "!QWidget QObject", "Return Base::event() instead of false"},
    {"base-class-event", "struct @ { }; struct Base : @ { }; struct D : Base { bool event() { return false; } };", nullptr, "QObject", "Return Base::event() instead of false"},
    {"qlatin1string-non-ascii", "struct @ { @(const char *); };", "@(\"\\303\\251\")", "QLatin1String", "QLatin1String with non-ascii literal"},
    {"qstring-varargs", "struct @ { @(); @(const @ &); ~@(); } s; void print(const char *, ...); void test() { print(\"\", s); }", nullptr, "QString QByteArray", "Passing @ to variadic function"},
    {"range-loop-detach", "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH; struct @ { int *begin(); int *end(); } c; void test() { for (int i : c) {} }", nullptr, "QListSpecialMethods=std::as_const(c) QListSpecialMethodsBase=std::as_const(c) QList=std::as_const(c) QVector=std::as_const(c) QMap=std::as_const(c) QHash=std::as_const(c) QMultiMap=std::as_const(c) QMultiHash=std::as_const(c) QSet=std::as_const(c) QStack=std::as_const(c) QQueue=std::as_const(c) QString=std::as_const(c) QStringRef=std::as_const(c) QByteArray=std::as_const(c) QJsonArray=std::as_const(c) QJsonObject=std::as_const(c) QLinkedList=std::as_const(c)", "c++11 range-loop might detach Qt container (@)", "c"},
    {"range-loop-detach", "struct @ { int *begin(); int *end(); }; struct My : @ {}; My get(); void test() { for (int i : get()) {} }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "c++11 range-loop might detach Qt container (My)"},
    {"use-arrow-operator-instead-of-data", "struct T { void f(); }; struct @ { T *data() const; } p;", "p.data()->f()", "QScopedPointer QPointer QSharedPointer QSharedDataPointer", "Use operator -> directly instead of @::data()->", ".data()"},
    {"use-arrow-operator-instead-of-data", "struct T { void f(); }; struct QPointer { T *@() const; } p;", "p.@()->f()", "data", "Use operator -> directly instead of QPointer::data()->", ".@()"},
    {"detaching-member", "struct QList { struct iterator { int *p; }; struct const_iterator { const_iterator(iterator); }; iterator @(); }; void g(const QList::const_iterator &); struct Owner { QList m; } o;", "(g(o.m.@()), 0)", "first last begin end rbegin rend front back", "Potential detachment due to calling QList::@()", "@"},
    {"detaching-member", "struct QList { struct iterator { int *p; }; iterator @(); }; void g(const QList::iterator &, int); struct Owner { QList m; } o;", "(g(o.m.@(), 1), 0)", "begin~ end~ first~ rbegin~"},
    {"detaching-member", "struct QList { typedef int *iterator; iterator @(); }; void g(int, int *); struct Owner { QList m; } o;", "(g(1, o.m.@()), 0)", "begin~ end~ first~ rbegin~"},
    {"detaching-member", "struct QList { typedef int *iterator; iterator @(); }; void g(const int *); struct Owner { QList m; } o;", "(g(o.m.@()), 0)", "first last begin end rbegin rend front back", "Potential detachment due to calling QList::@()", "@"},
    {"reserve-candidates", "struct QVector { void @(); }; void test() { QVector c; for (int i = 0; i < 3; ++i) c.@(); }", nullptr, "append~ push_back~ push~"},
    {"use-arrow-operator-instead-of-data", "struct T { void f(); }; struct QPointer { T *@() const; } p; struct Q { QPointer *m; } o; double d = .5;", "o.m->@()->f()", "data=-", "Use operator -> directly instead of QPointer::data()->"},
    {"reserve-candidates", "struct QVector { void @(int); }; void test() { QVector c; for (int i = 0; i < 3; ++i) c.@(i); }", nullptr, "append push_back push", "Reserve candidate"},
    {"reserve-candidates", "struct @ { void append(int); }; void test() { @ c; for (int i = 0; i < 3; ++i) c.append(i); }", nullptr, "QVector QList QSet", "Reserve candidate"},
    {"reserve-candidates", "struct QVector { void append(int); void @(int); }; void test() { QVector c; c.@(3); for (int i = 0; i < 3; ++i) c.append(i); }", nullptr, "!reserve", "Reserve candidate"},
    {"strict-iterators", "struct @ { struct const_iterator {}; struct iterator { bool operator==(const const_iterator &) const; }; }; @::iterator it; @::const_iterator cit;", "it == cit", "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QMap { struct @ {}; struct iterator { bool operator==(const @ &) const; }; }; QMap::iterator it; QMap::@ cit;", "it == cit", "const_iterator", "Mixing iterators with const_iterators"},
    {"container-inside-loop", "struct @ { @(); @(const @ &); ~@(); void append(int); }; void test() { while (true) { @ c; c.append(1); } }", nullptr, "QVector QList", "container inside loop causes unneeded allocations"},
    {"non-pod-global-static", "struct @ { @(); ~@(); }; static @ x;", nullptr, "!Holder AFUNC QLoggingCategory QThreadStorage QQmlModuleRegistration", "non-POD static (@ x)"},
    {"lambda-in-connect", "struct QObject { static void @(QObject *, int, QObject *, int (*)()); template <typename F> static void @(QObject *, int, F) {} }; void test(QObject *o) { int local = 1; QObject::@(o, 1, [&local] { return local; }); }", nullptr, "connect", "captured local variable by reference might go out of scope before lambda is called"},
    {"lambda-in-connect", "struct @ { static void connect(@ *, int, @ *, int (*)()); template <typename F> static void connect(@ *, int, F) {} }; void test(@ *o) { int local = 1; @::connect(o, 1, [&local] { return local; }); }", nullptr, "QObject", "captured local variable by reference might go out of scope before lambda is called"},
    {"connect-3arg-lambda", "struct QObject { int v; template <typename F> static void @(QObject *, int, F) {} }; void test(QObject *o, QObject *other) { QObject::@(o, 1, [other] { return other->v; }); }", nullptr, "connect", "Pass a context object as 3rd connect parameter"},
    {"connect-3arg-lambda", "struct QTimer { template <typename F> static void @(int interval, F slot) {} }; void test(int *p) { QTimer::@(1, [p] { return *p; }); }", nullptr, "singleShot", "Pass a context object as 2nd singleShot parameter"},
    {"connect-3arg-lambda", "struct @ { template <typename F> static void singleShot(int interval, int timerType, F slot) {} }; void test(int *p) { @::singleShot(1, 2, [p] { return *p; }); }", nullptr, "QTimer", "Pass a context object as 3rd singleShot parameter"},
    {"wrong-qglobalstatic", "template <typename T> struct @ { @(); @(int); }; struct Trivial { int i; }; @<Trivial> x{3};", nullptr, "QGlobalStatic QGlobalStaticCompoundStmt", "Don't use Q_GLOBAL_STATIC with trivial type (Trivial)"},
    {"overloaded-signal", SIGNALS "struct A : QObject { void @(); signals: void foo(int); };", nullptr, "foo", "signal foo is overloaded ["},
    {"overloaded-signal", SIGNALS "struct A : QObject { void @(int) const; signals: void foo(int); };", nullptr, "foo~"},
    {"overloaded-signal", SIGNALS "struct B : QObject { void @(); }; struct A : B { signals: void foo(int); };", nullptr, "foo", "signal foo is overloaded (with code.cpp:4:"},
    {"overloaded-signal", SIGNALS "struct B : QObject { void foo(); }; struct M : B {}; struct A : M { signals: void @(const char *); };", nullptr, "foo", "signal @ is overloaded (with code.cpp:4:"},
    {"overloaded-signal", SIGNALS "struct B : QObject { signals: void foo(); }; struct A : B { void @(int); };", nullptr, "foo~"},
    {"overloaded-signal", "#define signals public\nstruct @ {}; struct A : @ { void foo(); signals: void foo(int); };", nullptr, "QObject", "signal foo is overloaded ["},
    {"connect-by-name", SIGNALS "struct A : QObject { public slots: void @(); };", nullptr, "on_%_% on_ab_cde~ on_a_b~", "Slots named on_foo_bar are error prone"},
    {"connect-by-name", SIGNALS "struct A : QObject { public: void @(); signals: void on_ab_cde(); };", nullptr, "on_ab_cde~"},
    {"connect-non-signal", SIGNALS "struct S : QObject { void foo(); void bar(); template <typename F, typename G> static void @(const QObject *, F, const QObject *, G); }; void test(S *s) { S::@(s, &S::foo, s, &S::bar); }", nullptr, "connect~"},
    {"connect-non-signal", "struct QObject { template <typename F, typename G> static void @(const QObject *, F, const QObject *, G); };\nstruct S : QObject { void foo(); void bar(); }; void test(S *s) { QObject::@(s, &S::foo, s, &S::bar); }", nullptr, "connect", "S::foo is not a signal"},
    {"connect-non-signal", "struct @ { template <typename F, typename G> static void connect(const @ *, F, const @ *, G); };\nstruct S : @ { void foo(); void bar(); }; void test(S *s) { @::connect(s, &S::foo, s, &S::bar); }", nullptr, "QObject", "S::foo is not a signal"},
    {"connect-non-signal", "#define signals public\nstruct QObject { template <typename F, typename G> static void @(const QObject *, F, const QObject *, G); };\nstruct S : QObject { signals: void foo(); public: void @(int); }; void test(S *s) { QObject::@(s, &S::foo, s, &S::foo); }", nullptr, "connect~"},
    {"connect-non-signal", "#define slots\nstruct QObject { template <typename F, typename G> static void @(const QObject *, F, const QObject *, G); };\nstruct S : QObject { public slots: void foo(); }; void test(S *s) { QObject::@(s, &S::foo, s, &S::foo); }", nullptr, "connect", "S::foo is not a signal"},
    {"lambda-unique-connection", "namespace Qt { enum ConnectionType { AutoConnection, @ }; }\nstruct QObject { template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G, Qt::ConnectionType) {} };\nstruct S : QObject { void foo(); };\nvoid test(S *s) { QObject::connect(s, &S::foo, s, [] {}, Qt::@); }", nullptr, "UniqueConnection", "UniqueConnection is not supported with non-member functions"},
    {"lambda-unique-connection", "namespace Qt { enum ConnectionType { AutoConnection, @ }; }\nstruct QObject { template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G, Qt::ConnectionType) {} };\nstruct S : QObject { void foo(); };\nvoid test(S *s) { QObject::connect(s, &S::foo, s, &S::foo, Qt::@); }", nullptr, "UniqueConnection~"},
    {"lambda-unique-connection", "namespace Qt { enum ConnectionType { AutoConnection, UniqueConnection }; }\nstruct QObject { template <typename F, typename G> static void @(const QObject *, F, const QObject *, G, Qt::ConnectionType) {} };\nstruct S : QObject { void foo(); };\nvoid f(); void test(S *s) { QObject::@(s, &S::foo, s, &f, Qt::UniqueConnection); }", nullptr, "connect", "UniqueConnection is not supported with non-member functions"},
    {"lambda-unique-connection", "namespace Qt { enum ConnectionType { AutoConnection, @ }; }\nstruct QObject { template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G, Qt::ConnectionType) {} };\nstruct S : QObject { void foo(); };\nvoid test(S *s) { QObject::connect(s, &S::foo, s, [] {}, Qt::ConnectionType(Qt::AutoConnection | Qt::@)); }", nullptr, "UniqueConnection", "UniqueConnection is not supported with non-member functions"},
    {"virtual-signal", SIGNALS "struct @ {}; struct Base : @ { virtual void foo(); }; struct A : QObject, Base { signals: void foo() override; };", nullptr, "QObject", "signal is virtual"},
    {"virtual-signal", "#define signals public\nstruct @ {}; struct A : @ { signals: virtual void foo(); };", nullptr, "QObject", "signal is virtual"},
    {"virtual-signal", SIGNALS "struct Base : QObject { virtual void @(); }; struct A : Base { signals: void foo(); public: void @() override; };", nullptr, "foo~"},
    {"overridden-signal", SIGNALS "struct B : QObject { signals: void @(); }; struct M : B {}; struct A : M { signals: void foo(); };", nullptr, "foo", "Overriding signal with signal: A::foo"},
    {"overridden-signal", SIGNALS "struct B : QObject { void foo(int); void @(int *); }; struct A : B { signals: void foo(int *); };", nullptr, "foo", "Overriding non-signal with signal: A::foo"},
    {"overridden-signal", SIGNALS "struct B : QObject { signals: void foo(int); }; struct A : B { void @(int); };", nullptr, "foo", "Overriding signal with non-signal: A::@"},
    {"overridden-signal", SIGNALS "struct B : QObject { signals: void foo(int); void @(long); }; struct A : B { void @(int, int); };", nullptr, "foo~"},
    {"overridden-signal", SIGNALS "struct B : QObject { void foo(int); }; struct A : B { void @(int); };", nullptr, "foo~"},
    {"overridden-signal", "#define signals public\nstruct @ {}; struct B : @ { signals: void foo(); }; struct A : B { signals: void foo(); };", nullptr, "QObject", "Overriding signal with signal: A::foo"},
    {"skipped-base-method", "struct G { void @(); }; struct B : G { void foo(); }; struct A : B { void f() { G::@(); } };", nullptr, "foo", "Maybe you meant to call B::@() instead"},
    {"skipped-base-method", "struct G { void foo(); }; struct B : G { void @(); }; struct A : B { void f() { this->G::foo(); } };", nullptr, "foo", "Maybe you meant to call B::foo() instead"},
    {"skipped-base-method", "struct G { void foo(); }; struct B : G { void @(); }; struct A : B { void f(A *o) { o->G::foo(); B::@(); } };", nullptr, "foo~"},
    {"thread-with-slots", SIGNALS "struct @ : QObject { }; struct T : @ { int m; public slots: void foo() { m = 1; } };", nullptr, "QThread", "Slot T::foo might not run in the expected thread"},
    {"thread-with-slots", SIGNALS "struct QThread : QObject {}; struct @ { void lock(); }; struct T : QThread { int m; @ mm; public slots: void foo() { mm.lock(); m = 1; } };", nullptr, "!QMutex QBasicMutex", "Slot T::foo might not run in the expected thread"},
    {"thread-with-slots", SIGNALS "struct QThread : QObject {}; struct @ { void lock(); }; extern @ other; struct T : QThread { int m; public slots: void foo() { other.lock(); m = 1; } };", nullptr, "!QMutex QBasicMutex", "Slot T::foo might not run in the expected thread"},
    {"thread-with-slots", SIGNALS "struct @ : QObject { int m; public slots: void foo() { m = 1; } void bar() { } }; struct T : @ { public slots: void foo() { } };", nullptr, "QThread~"},
    {"thread-with-slots", "struct QObject { template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G); }; struct @ : QObject {}; struct T : @ { void foo(); }; struct S : QObject { void sig(); }; void test(S *s, T *t) { QObject::connect(s, &S::sig, t, &T::foo); }", nullptr, "QThread", "Slot T::foo might not run in the expected thread"},
    {"signal-with-return-value", "#define signals public\nstruct @ {}; struct A : @ { int bar(); signals: int foo(int, const int &); void fine(); };", nullptr, "QObject", "foo() should return void"},
    {"signal-with-return-value", "#define signals public\nstruct @ {}; struct A : @ { void bar(int &); signals: void foo(int, const char *, int &); };", nullptr, "QObject", "foo() shouldn't receive parameters by ref"},
    {"heap-allocated-small-trivial-type", "struct @ { int a; };\nvoid test() { auto p = new @; p->a = 1; }", nullptr, "!*Private*", "Don't heap-allocate small trivially copyable/destructible types: @"},
    {"heap-allocated-small-trivial-type", "struct Aa { int a; };\nvoid @(int); void test() { auto p = new Aa; @(p->a); }", nullptr, "!zzzz~", "Don't heap-allocate small trivially copyable/destructible types: Aa"},
    {"heap-allocated-small-trivial-type", "struct Aa { int a; };\nvoid @(Aa *); void test() { auto p = new Aa; @(p); }", nullptr, "zzzz~"},
    {"heap-allocated-small-trivial-type", "namespace Xx { class @ { char a[16]; }; }\nvoid test() { Xx::@ *p = new Xx::@(); }", nullptr, "!*Private*", "Don't heap-allocate small trivially copyable/destructible types: Xx::@"},
    {"heap-allocated-small-trivial-type", "struct @ { char a[17]; };\nvoid test() { @ *p = new @(); }", nullptr, "zzzz~"},
    {"heap-allocated-small-trivial-type", "struct @ { ~@(); char a; };\nvoid test() { @ *p = new @(); }", nullptr, "zzzz~"},
    {"qrequiredresult-candidates", "struct Aa { Aa @() const; };", nullptr, "*ed ^to* ^operator*", "Add Q_REQUIRED_RESULT to Aa::@()"},
    {"qrequiredresult-candidates", "class Aa { Aa @() const; };", nullptr, "trimmed~"},
    {"qrequiredresult-candidates", "struct Bb {}; struct Aa { Bb @() const; };", nullptr, "trimmed~"},
    {"qrequiredresult-candidates", "struct Aa { [[nodiscard]] Aa @() const; };", nullptr, "trimmed~"},
    {"qrequiredresult-candidates", "struct Aa { Aa @(); };", nullptr, "trimmed~"},
    {"qrequiredresult-candidates", "class Aa { struct Bb { Bb @() const; }; };", nullptr, "trimmed~"},
    {"qrequiredresult-candidates", "namespace Nn { struct @ { @ trimmed() const { return *this; } }; }", nullptr, "!zzzz~", "Add Q_REQUIRED_RESULT to Nn::@::trimmed()"},
    {"qstring-comparison-to-implicit-char", "struct QChar { QChar(int); }; struct @ {}; bool operator==(const @ &, QChar); @ s;", "s == 1", "QString", "QString being compared to implicit QChar"},
    {"qstring-comparison-to-implicit-char", "struct @ { @(int); }; struct QString {}; bool operator==(const QString &, @); QString s;", "s == 1", "QChar", "QString being compared to implicit QChar"},
    {"qstring-comparison-to-implicit-char", "struct @ { @(int); }; struct QString {}; bool operator!=(const QString &, @); QString s;", "s != 1", "QChar~"},
    {"qstring-comparison-to-implicit-char", "struct @ { @(int); }; struct QString { bool operator==(@) const; }; QString s;", "s == 1", "QChar~"},
    {"qstring-comparison-to-implicit-char", "struct @ { @(char); }; struct QString {}; bool operator==(const QString &, @); QString s;", "s == 'a'", "QChar~"},
    {"empty-qstringliteral", "#define QSL static const D @ = {0, \"\"}\nstruct D { int n; const char s[1]; };\nvoid test() { QSL; }", nullptr, "qstring_literal", "Use QLatin1String(\"\") or QString() instead of an empty QStringLiteral"},
    {"empty-qstringliteral", "#define QSL static const D @ = {0, \"a\"}\nstruct D { int n; const char s[2]; };\nvoid test() { QSL; }", nullptr, "qstring_literal~"},
    {"empty-qstringliteral", "struct D { int n; const char s[1]; };\nvoid test() { static const D @ = {0, \"\"}; }", nullptr, "qstring_literal~"},
    {"empty-qstringliteral", "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\nnamespace QtPrivate { struct D { template <typename T> static int @(T); }; }\n#define QSL(x) QtPrivate::D::@(x)\nint s = QSL(\"\");", nullptr, "qMakeStringPrivate~"},
    {"empty-qstringliteral", "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\nnamespace QtPrivate { int @(const char *); }\n#define QSL(x) QtPrivate::@(x)\nint s = QSL(\"\");", nullptr, "qMakeStringPrivate", "Use QLatin1String(\"\") or QString() instead of an empty QStringLiteral"},
    {"empty-qstringliteral", "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\nnamespace QtPrivate { int @(const char *); }\n#define QSL(x) QtPrivate::@(x)\nint s = QSL(\"a\");", nullptr, "qMakeStringPrivate~"},
    {"empty-qstringliteral", "#define QT_VERSION_MAJOR 6\n#define QT_VERSION_MINOR 5\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\nnamespace @ { int qMakeStringPrivate(const char *); }\n#define QSL(x) @::qMakeStringPrivate(x)\nint s = QSL(\"\");", nullptr, "QtPrivate", "Use QLatin1String(\"\") or QString() instead of an empty QStringLiteral"},
    {"rule-of-two-soft", "struct @ { @(); @(const @ &) {} };\nvoid test(@ &a, @ &b) { a = b; }", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef", "Using assign operator but class @ has copy-ctor but no assign operator"},
    {"rule-of-two-soft", "struct @ { @(); @ &operator=(const @ &); };\nvoid test(@ &a) { @ b(a); }", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef", "Using copy-ctor but class @ has a trivial copy-ctor but non trivial assign operator"},
    {"rule-of-two-soft", "struct QList { struct @ { @(); @(const @ &) {} }; };\nvoid test(QList::@ &a, QList::@ &b) { a = b; }", nullptr, "!iterator const_iterator", "Using assign operator but class QList::@ has"},
    {"rule-of-two-soft", "struct @ { struct iterator { iterator(); iterator(const iterator &) {} }; };\nvoid test(@::iterator &a, @::iterator &b) { a = b; }", nullptr, "!QList QTextBlock QSet QLinkedList QJsonArray QTextFrame QFuture QTypedArrayData", "Using assign operator but class @::iterator has"},
    {"rule-of-two-soft", "struct @ { struct const_iterator { const_iterator(); const_iterator(const const_iterator &) {} }; };\nvoid test(@::const_iterator &a, @::const_iterator &b) { a = b; }", nullptr, "!QList QSet QLinkedList QJsonArray QFuture", "Using assign operator but class @::const_iterator has"},
    {"rule-of-two-soft", "namespace @ { struct aa { aa(); aa(const aa &) {} }; }\nvoid test(@::aa &a, @::aa &b) { a = b; }", nullptr, "!std", "Using assign operator but class @::aa has"},
    {"rule-of-two-soft", "struct @ { @(); @(const @ &) {} @ &operator=(const @ &) { return *this; } };\nvoid test(@ &a, @ &b) { a = b; @ c(a); }", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { ~@() { int a; } };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private", "@ has dtor but not copy-ctor, copy-assignment"},
    {"rule-of-three", "struct @ { @(const @ &) {} };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private QSharedData", "@ has copy-ctor but not dtor, copy-assignment"},
    {"rule-of-three", "struct @ { @ &operator=(const @ &) { return *this; } };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private QSharedData", "@ has copy-assignment but not dtor, copy-ctor"},
    {"rule-of-three", "struct @ { @(const @ &) {} ~@() {} };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private", "@ has dtor, copy-ctor but not copy-assignment"},
    {"rule-of-three", "struct @ { @ &operator=(const @ &); ~@() {} };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private", "@ has dtor, copy-assignment but not copy-ctor"},
    {"rule-of-three", "struct @ { @(const @ &); @ &operator=(const @ &); };", nullptr, "!QAtomicInt QBasicAtomicInteger QAtomicInteger QBasicAtomicPointer QAtomicPointer QScopedArrayPointer QColor QCharRef QByteRef QMutableListIterator QStringList QSet QMatrix QBitRef QJsonValueRef *Private QSharedData", "@ has copy-ctor, copy-assignment but not dtor"},
    {"rule-of-three", "struct @ { @(const @ &); @ &operator=(const @ &); ~@() { int a; } };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { ~@() {} };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { protected: ~@() { int a; } };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { virtual ~@() { int a; } };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { @(const @ &) = delete; ~@() { int a; } };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ { ~@() { int a; } const int k = 1; };", nullptr, "zzzz~"},
    {"rule-of-three", "struct @ {}; struct Aa : @ { Aa(const Aa &) {} };", nullptr, "!QSharedData", "Aa has copy-ctor but not dtor, copy-assignment"},
    {"rule-of-three", "template <typename T> struct @ { T *p; }; struct Aa { @<int> d; ~Aa() { int a; } };", nullptr, "!QSharedDataPointer", "Aa has dtor but not copy-ctor, copy-assignment"},
    {"unneeded-cast", "struct Bb {}; struct Cc : Bb {}; template <typename T> T @(Bb *); Cc *c;", "@<Bb *>(c)", "qobject_cast", "explicitly casting to base is unnecessary"},
    {"unneeded-cast", "struct Bb {}; template <typename T> T @(Bb *); Bb *c;", "@<Bb *>(c)", "qobject_cast", "Casting to itself"},
    {"unneeded-cast", "struct Bb {}; struct Cc : Bb {}; template <typename T> T @(Bb *); Cc *c;", "true ? @<Bb *>(c) : nullptr", "qobject_cast", "use static_cast instead of qobject_cast"},
    {"unneeded-cast", "struct Bb {}; struct Cc : Bb {}; template <typename T> T @(Bb *); Bb *b;", "@<Cc *>(b)", "qobject_cast~"},
    {"unneeded-cast", "struct @ { virtual ~@(); }; struct Cc : @ {}; @ *o;", "dynamic_cast<Cc *>(o)", "QObject", "Use qobject_cast rather than dynamic_cast"},
    {"unneeded-cast", "struct @ { virtual ~@(); }; struct Bb : @ {}; struct Cc : Bb {}; Bb *o;", "dynamic_cast<Cc *>(o)", "QObject", "Use qobject_cast rather than dynamic_cast"},
    {"unneeded-cast", "struct @ { virtual ~@(); }; struct Cc : @ {}; @ *o;", "dynamic_cast<Cc *>(o)", "QObject~", nullptr, nullptr, "CLAZY_EXTRA_OPTIONS", "unneeded-cast-prefer-dynamic-cast-over-qobject"},
    {"unneeded-cast", "struct @ {}; struct Cc : @ {}; Cc *o;", "static_cast<@ *>(o)", "!zzzz~", "explicitly casting to base is unnecessary"},
    {"unneeded-cast", "struct @ {}; struct Cc : @ {}; Cc *o;", "true ? static_cast<@ *>(o) : nullptr", "zzzz~"},
    {"unneeded-cast", "struct @ {}; struct Cc : @ {}; @ *o;", "static_cast<Cc *>(o)", "zzzz~"},
    {"ctor-missing-parent-argument", "struct @ {}; struct Aa : @ { Aa(); };", nullptr, "QObject", "Aa should take QObject parent argument in CTOR"},
    {"ctor-missing-parent-argument", "struct @ {}; struct Aa : @ { Aa(); Aa(int, @ *); };", nullptr, "QObject~"},
    {"ctor-missing-parent-argument", "struct @ {}; struct Aa : @ { Aa() = delete; };", nullptr, "QObject"},
    {"ctor-missing-parent-argument", "struct QObject { QObject(QObject * = nullptr); }; struct @ : QObject { @(@ *); @(QObject *); }; struct Aa : @ { Aa(QObject *); };", nullptr, "QWidget QQuickItem", "Aa should take @ parent argument in CTOR"},
    {"ctor-missing-parent-argument", "struct QObject { QObject(QObject * = nullptr); }; namespace Qt3DCore { struct QNode : QObject { QNode(QObject *); }; struct @ : QNode { @(QNode *); @(QObject *); }; } struct Aa : Qt3DCore::@ { Aa(QObject *); };", nullptr, "QEntity", "Aa should take Qt3DCore::QNode parent argument in CTOR"},
    {"ctor-missing-parent-argument", "struct QObject { QObject(QObject * = nullptr); }; namespace @ { struct QNode : QObject { QNode(QObject *); }; struct QEntity : QNode { QEntity(QNode *); QEntity(QObject *); }; } struct Aa : @::QEntity { Aa(QObject *); };", nullptr, "Qt3DCore", "Aa should take Qt3DCore::QNode parent argument in CTOR"},
    {"ctor-missing-parent-argument", "struct QObject { QObject(QObject * = nullptr); }; struct @ : QObject { @(QObject *); }; struct Aa : @ { Aa(int); };", nullptr, "!QCoreApplication", "Aa should take QObject parent argument in CTOR"},
    {"ctor-missing-parent-argument", "struct QObject { QObject(QObject * = nullptr); }; struct Bb : QObject { Bb(QObject *); }; struct @ : Bb { using Bb::Bb; };", nullptr, "zzzz~"},
    {"implicit-casts", "struct QString { QString @(int); }; QString s;", "s.@(true)", "!arg", "Implicit bool to int cast (argument 1)", nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "struct @ { @ arg(int, int); }; @ s;", "s.arg(1, true)", "!QString", "Implicit bool to int cast (argument 2)", nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "struct QString { QString @(int); }; QString s;", "s.@(true)", "left~"},
    {"implicit-casts", "struct @ { @ &operator<<(int); }; @ s; int conv(int);", "s << conv(true)", "!QTextStream QAtomicInt QBasicAtomicInt", "Implicit bool to int cast (argument 1)", nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "struct @ { @(int); };\nvoid test() { @ a(true); }", nullptr, "!QAtomicInt QBasicAtomicInt", "Implicit bool to int cast (argument 1)", nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "extern \"C\" int @(int);", "@(true)", "conv~", nullptr, nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "int @(int, ...);", "@(true)", "conv~", nullptr, nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "int @(bool, int *); int *p;", "@(p, p)", "!zzzz~", "Implicit pointer to bool cast (argument 1)"},
    {"implicit-casts", "int @(int *, bool); int *p;", "@(p, p)", "!zzzz~", "Implicit pointer to bool cast (argument 2)", nullptr, "CLAZY_EXTRA_OPTIONS", "implicit-casts-bool-to-int"},
    {"implicit-casts", "int @(bool, int); int *p;", "@(p, 1)", "conv~"},
    {"missing-typeinfo", "template <typename T> struct @ {}; struct Aa { int n; }; @<Aa> v;", nullptr, "QList QVector", "Missing Q_DECLARE_TYPEINFO: Aa", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"missing-typeinfo", "template <typename T> struct @ {}; struct Aa { void *n, *m; }; @<Aa> v;", nullptr, "QVector", "Missing Q_DECLARE_TYPEINFO: Aa", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"missing-typeinfo", "template <typename T> struct QVector {}; struct @ { int n; }; QVector<@> v;", nullptr, "!QPair", "Missing Q_DECLARE_TYPEINFO: @", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"missing-typeinfo", "template <typename T> struct QVector {}; template <typename T> struct @ {}; struct Aa { int n; }; template <> struct @<Aa> {}; QVector<Aa> v;", nullptr, "!QTypeInfo", "Missing Q_DECLARE_TYPEINFO: Aa", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"missing-typeinfo", "template <typename T> struct @ {}; struct Aa { Aa(const Aa &); }; @<Aa> *v; void test() { (void)sizeof(@<Aa>); }", nullptr, "QVector~"},
    {"assert-with-side-effects", "#define Q_ASSERT(x) (void)(x)\nint @(int);", "[] { Q_ASSERT(@(1)); }", "zzzz~"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct @ { @(const QString &, int = 0); ~@(); int match(const char *) const; };", "@(\"a\").match(\"b\")", "QRegularExpression", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); int @(const char *) const; };", "QRegularExpression(\"a\").@(\"b\")", "match globalMatch", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct @ { @(const char *); ~@(); }; struct QRegularExpression { QRegularExpression(const @ &, int = 0); ~QRegularExpression(); int match(const char *) const; };", "QRegularExpression(\"a\").match(\"b\")", "QString", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); int @(const char *) const; };\nvoid test() { QRegularExpression r(\"a\"); r.@(\"b\"); }", nullptr, "match globalMatch", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); int @(const char *) const; };\nvoid test() { static QRegularExpression r(\"a\"); r.@(\"b\"); }", nullptr, "match~ globalMatch~"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); int @(const char *) const; };", "QRegularExpression(QString(\"a\").arg(1)).@(\"b\")", "match~"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); QString arg(int) const; ~QString(); }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); }; struct @ { int contains(const QRegularExpression &) const; } s;", "s.contains(QRegularExpression(\"a\"))", "QString QStringList QRegularExpression QListSpecialMethods", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct QString { QString(const char *); ~QString(); template <typename R> int contains(const R &) const; }; struct @ { @(const QString &, int = 0); ~@(); }; QString s(\"x\");", "s.contains(@(\"a\"))", "QRegularExpression", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"use-static-qregularexpression", "struct QRegularExpression; struct QString { QString(const char *); ~QString(); int @(const QRegularExpression &) const; }; struct QRegularExpression { QRegularExpression(const QString &, int = 0); ~QRegularExpression(); }; QString s(\"x\");", "s.@(QRegularExpression(\"a\"))", "!match globalMatch", "Don't create temporary QRegularExpression objects. Use a static QRegularExpression object instead"},
    {"returning-void-expression", "void @(int);\nvoid test() { return @(1); }", nullptr, "!zzzz~", "Returning a void expression"},
    {"returning-void-expression", "int @(int);\nint test() { return @(1); }", nullptr, "zzzz~"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { ~@(); };\nvoid test(@ &l) { for (QForeachContainer<@> k(l); k.i;) {} }", nullptr, "!QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList", "foreach with "},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 9\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { ~@(); };\nvoid test(@ &l) { for (QForeachContainer<@> k(l); k.i;) {} }", nullptr, "Stl~"},
    {"foreach", "template <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { ~@(); };\nvoid test(@ &l) { for (QForeachContainer<@> k(l); k.i;) {} }", nullptr, "!QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList", "foreach with "},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct @ { @(const T &t) : c(t) {} const T c; int i = 0; };\nstruct Stl { ~Stl(); };\nvoid test(Stl &l) { for (@<Stl> k(l); k.i;) {} }", nullptr, "QForeachContainer", "foreach with STL container causes deep-copy (Stl)"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct Base { ~Base(); }; struct @ : Base {};\nvoid test(@ &l) { for (QForeachContainer<@> k(l); k.i;) {} }", nullptr, "!zzzz~", "foreach with STL container causes deep-copy (Base)"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { ~@(); }; struct Mine : @ {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) {} }", nullptr, "!QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList", "foreach with "},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QList { ~QList(); int @(); }; struct Mine : QList {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "first last begin end rbegin rend front back", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QVector { ~QVector(); int @(); }; struct Mine : QVector {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "first last begin end rbegin rend front back data fill", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QStack { ~QStack(); int @(); }; struct Mine : QStack {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "first last begin end rbegin rend front back data top", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QMap { ~QMap(); int @(); }; struct Mine : QMap {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "begin end first find last lowerBound upperBound keyValueBegin keyValueEnd", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QHash { ~QHash(); int @(); }; struct Mine : QHash {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "begin end find", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QByteArray { ~QByteArray(); int @(); }; struct Mine : QByteArray {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "begin end rbegin rend data", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QJsonArray { ~QJsonArray(); int @(); }; struct Mine : QJsonArray {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "begin~", "foreach container detached"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QList { ~QList(); int @() const; }; struct Mine : QList {};\nvoid test(const Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) { l.@(); } }", nullptr, "first~"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QList { ~QList(); int @(); }; struct Mine : QList {};\nvoid test(Mine &l, Mine &m) { for (QForeachContainer<Mine> k(l); k.i;) { m.@(); } }", nullptr, "first~"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct QList { ~QList(); int @(); }; struct Mine : QList {};\nvoid test(Mine &l) { for (QForeachContainer<Mine> k(l); k.i;) {} l.@(); }", nullptr, "first~"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { char a[17]; }; struct QList { ~QList(); @ get() const; };\nvoid test(QList &l) { for (QForeachContainer<QList> k(l); k.i;) for (@ v = k.c.get(); k.i;) {} }", nullptr, "!zzzz~", "Missing reference in foreach with sizeof(T) = 17 bytes (@)"},
    {"foreach", "#define QT_VERSION_MAJOR 5\n#define QT_VERSION_MINOR 8\n#define QT_VERSION_PATCH 0\nint version = QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH;\ntemplate <typename T> struct QForeachContainer { QForeachContainer(const T &t) : c(t) {} const T c; int i = 0; };\nstruct @ { char a[16]; }; struct QList { ~QList(); @ get() const; };\nvoid test(QList &l) { for (QForeachContainer<QList> k(l); k.i;) for (@ v = k.c.get(); k.i;) {} }", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct @ { char a[17]; };\nvoid func(@ val) {}", nullptr, "!QDebug QGenericReturnArgument QColor QStringRef QSharedPointer QVariantComparisonHelper QHashDummyValue QCharRef", "Missing reference on large type (sizeof @ val is 17 bytes)"},
    {"function-args-by-ref", "struct @ { ~@(); };\nvoid func(int, const @ val) {}", nullptr, "!QDebug QGenericReturnArgument QColor QStringRef QSharedPointer QVariantComparisonHelper QHashDummyValue QCharRef", "func: Missing reference on non-trivial type (const @ val)"},
    {"function-args-by-ref", "struct @ { char a[16]; };\nvoid func(@ val) {}", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct @ { ~@(); };\nvoid func(const @ &val, @ &ref, @ *ptr, @ &&mov) {}", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct @ { ~@(); };\nvoid func(@ val);", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct @ { ~@(); struct Os {}; };\n@::Os operator<<(@::Os o, @ val) { return o; }", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct Big { ~Big(); }; struct Cls { void @(Big val) {} };", nullptr, "!zzzz~", "Cls::@: Missing reference on non-trivial type (Big val)"},
    {"function-args-by-ref", "struct Big { ~Big(); void @(); };\nvoid func(Big val) { val.@(); }", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct Big { ~Big(); void @() const; };\nvoid func(Big val) { val.@(); }", nullptr, "!zzzz~", "func: Missing reference on non-trivial type (Big val)"},
    {"function-args-by-ref", "struct Big { ~Big(); };\nvoid @(Big &); void func(Big val) { @(val); }", nullptr, "zzzz~"},
    {"function-args-by-ref", "struct Big { ~Big(); };\nvoid @(const Big &); void func(Big val) { @(val); }", nullptr, "!zzzz~", "func: Missing reference on non-trivial type (Big val)"},
    {"function-args-by-ref", "namespace @ { struct Null { ~Null(); }; }\nvoid func(@::Null val) {}", nullptr, "!QString", "func: Missing reference on non-trivial type (@::Null val)"},
    {"function-args-by-ref", "struct @ { struct const_iterator { ~const_iterator(); }; };\nvoid func(@::const_iterator val) {}", nullptr, "!QList QJsonArray", "func: Missing reference on non-trivial type (@::const_iterator val)"},
    {"function-args-by-ref", "namespace @ { struct shared_ptr { ~shared_ptr(); }; }\nvoid func(@::shared_ptr val) {}", nullptr, "!std boost", "func: Missing reference on non-trivial type (@::shared_ptr val)"},
    {"function-args-by-ref", "struct Big { ~Big(); }; struct @ { void exec(Big val) {} };", nullptr, "!QMenu", "@::exec: Missing reference", nullptr, "CLAZY_EXTRA_OPTIONS", "qt-developer"},
    {"function-args-by-ref", "struct Big { ~Big(); }; struct @ { void mimeData(Big val) {} };", nullptr, "!QListWidget QTableWidget QTreeWidget", "@::mimeData: Missing reference", nullptr, "CLAZY_EXTRA_OPTIONS", "qt-developer"},
    {"function-args-by-ref", "struct Big { ~Big(); }; struct QWidget { void @(Big val) {} };", nullptr, "!addActions", "QWidget::@: Missing reference", nullptr, "CLAZY_EXTRA_OPTIONS", "qt-developer"},
    {"function-args-by-ref", "struct Big { ~Big(); }; struct QMenu { void @(Big val) {} };", nullptr, "!zzzz~", "QMenu::@: Missing reference"},
    {"function-args-by-value", "struct @ { char a[16]; };\nvoid func(const @ &val) {}", nullptr, "!QDebug QGenericReturnArgument QColor QStringRef QSharedPointer QVariantComparisonHelper QHashDummyValue QCharRef", "func: Pass small and trivially-copyable type by value (const @ & val)"},
    {"function-args-by-value", "struct @ { char a[17]; };\nvoid func(const @ &val) {}", nullptr, "zzzz~"},
    {"function-args-by-value", "struct @ { ~@(); };\nvoid func(const @ &val) {}", nullptr, "zzzz~"},
    {"function-args-by-value", "struct @ { int a; };\nvoid func(@ &val, @ *ptr, @ &&mov, @ cpy) {}", nullptr, "zzzz~"},
    {"function-args-by-value", "struct @ { int a; };\nvoid func(const @ &val);", nullptr, "zzzz~"},
    {"function-args-by-value", "struct Sm { int a; }; struct Base { virtual void foo(const Sm &); }; struct @ : Base { void foo(const Sm &val) {} };", nullptr, "zzz~"},
    {"function-args-by-value", "struct Sm { int a; }; struct Base { virtual void foo(const Sm &); }; struct @ : Base { void foo(const Sm &val) {} };", nullptr, "!zzz~", "@::foo: Pass small and trivially-copyable type by value (const Sm & val)", nullptr, "CLAZY_EXTRA_OPTIONS", "function-args-by-value-warn-for-overridden-methods"},
    {"function-args-by-value", "struct @ { int a; @(const @ &val) = default; };", nullptr, "zzzz~"},
    {"function-args-by-value", "struct Sm { int a; }; struct @ { void exec(const Sm &val) {} };", nullptr, "!QMenu", "@::exec: Pass small and trivially-copyable type by value", nullptr, "CLAZY_EXTRA_OPTIONS", "qt-developer"},
    {"function-args-by-value", "struct Sm { int a; }; struct QWidget { void @(const Sm &val) {} };", nullptr, "!addActions", "QWidget::@: Pass small and trivially-copyable type by value", nullptr, "CLAZY_EXTRA_OPTIONS", "qt-developer"},
    {"function-args-by-value", "struct @ { int a; bool operator==(const @ &val) const { return a == val.a; } };", nullptr, "zzzz~"},
    {"copyable-polymorphic", "namespace Nn { struct @ { virtual void foo(); }; }", nullptr, "!zzzz~", "Polymorphic class Nn::@ is copyable. Potential slicing."},
    {"copyable-polymorphic", "struct @ { virtual void foo(); @(const @ &) = delete; @ &operator=(const @ &) = delete; };", nullptr, "zzzz~"},
    {"copyable-polymorphic", "struct @ { void foo(); };", nullptr, "zzzz~"},
    {"copyable-polymorphic", "class @ { virtual void foo(); @(const @ &); @ &operator=(const @ &); };", nullptr, "zzzz~"},
    {"static-pmf", "struct @ { void foo(); };\nvoid test() { static auto pmf = &@::foo; }", nullptr, "QObject", "Static pointer to member has portability issues"},
    {"static-pmf", "struct @ {}; struct Mine : @ { void foo(int); };\nvoid test() { static void (Mine::*pmf)(int) = &Mine::foo; }", nullptr, "QObject", "Static pointer to member has portability issues"},
    {"static-pmf", "struct @ { void foo(); int mem; };\nauto gl = &@::foo; void test() { auto pmf = &@::foo; static auto mem = &@::mem; }", nullptr, "QObject~"},
    {"qstring-ref", "struct QString { ~QString(); QString mid(int) const; int @(int = 0) const; } s;", "s.mid(1).@()", "compare contains count startsWith endsWith indexOf isEmpty isNull lastIndexOf length size toDouble toFloat toInt toUInt toULong toULongLong toUShort toUcs4", "Use midRef() instead"},
    {"qstring-ref", "struct QString { ~QString(); QString @(int) const; int toInt() const; } s;", "s.@(1).toInt()", "left mid right", "Use @Ref() instead"},
    {"qstring-ref", "struct @ { ~@(); @ mid(int) const; int toInt() const; } s;", "s.mid(1).toInt()", "QString", "Use midRef() instead"},
    {"qstring-ref", "struct QRegExp; struct @ { ~@(); }; struct QString { ~QString(); QString mid(int) const; int count(const @ &) const; } s; @ rx;", "s.mid(1).count(rx)", "!QRegExp QRegularExpression", "Use midRef() instead"},
    {"qstring-ref", "struct QString { ~QString(); QString @(int) const; int append(const QString &); } s, t;", "s.append(t.@(1))", "left mid right", "Use @Ref() instead"},
    {"qstring-ref", "struct QString { ~QString(); QString @(int) const; QString &operator+=(const QString &); } s, t;", "s += t.@(1)", "left mid right", "Use @Ref() instead"},
    {"qstring-ref", "struct QString { QString(int); ~QString(); QString mid(int) const; QString toUcs4() const; } s(1); struct @ { @(const QString &); ~@(); };", "@(s.mid(1).toUcs4())", "zzzz~"},
    {"global-const-char-pointer", "const char *@ = \"a\";", nullptr, "!zzzz~", "non const global char *"},
    {"global-const-char-pointer", "namespace Nn { char *@; }", nullptr, "!zzzz~", "non const global char *"},
    {"global-const-char-pointer", "const char *const @ = \"a\"; static const char *ss; namespace { const char *tt; } extern const char *uu; struct Aa { static const char *vv; }; const char ww[] = \"\"; int *xx; void test(const char *yy) { static const char *zz; }", nullptr, "zzzz~"},
    {"assert-with-side-effects", "#define Q_ASSERT(x) ((x) ? (void)0 : (void)1)\nvoid test(int @) { Q_ASSERT(@ = 2); }", nullptr, "!zzzz~", "Code inside Q_ASSERT has side-effects but won't be built in release mode"},
    {"assert-with-side-effects", "#define Q_ASSERT(x) ((x) ? (void)0 : (void)1)\nvoid test(int @) { Q_ASSERT(++@); }", nullptr, "!zzzz~", "Code inside Q_ASSERT has side-effects but won't be built in release mode"},
    {"assert-with-side-effects", "#define Q_ASSERT(x) ((x) ? (void)0 : (void)1)\nvoid test(int @, int *ptr) { Q_ASSERT(@ == 2 && *ptr && &@ != ptr); @ = 1; ++@; }", nullptr, "zzzz~"},
    {"virtual-call-ctor", "struct Aa { Aa() { @(); } virtual void @() = 0; };", nullptr, "!zzzz~", "Calling pure virtual function in CTOR", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"virtual-call-ctor", "struct Aa { ~Aa() { if (1) this->@(); } virtual void @() = 0; };", nullptr, "!zzzz~", "Calling pure virtual function in DTOR", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"virtual-call-ctor", "struct Aa { Aa() { foo(); } void foo() { if (!foo2()) bar(); } bool foo2(); void bar() { foo(); @(); } virtual void pure() = 0; virtual void @(int = 0) {} };", nullptr, "zzzz~"},
    {"virtual-call-ctor", "struct Aa { Aa() { foo(); } void foo() { if (!foo2()) bar(); } bool foo2(); void bar() { foo(); @(); } virtual void @() = 0; };", nullptr, "!zzzz~", "Calling pure virtual function in CTOR", nullptr, nullptr, nullptr, "-std=c++17", 2},
    {"virtual-call-ctor", "struct Aa { Aa() { auto l = [this] { @(); }; other->@(); } Aa *other; virtual void @() = 0; };", nullptr, "zzzz~"},
    // ---- r1.py
    {"temporary-iterator", "struct QVariant {}; struct QList { int *@() const; ~QList(); }; QList get(); struct M { QList l() const; QList &r(); QList *p(); QList mm; void own(); } m; struct Sub : QList { void in() { @(); this->@(); } }; void use(int *); QList *ptr(); QList &ref();\nvoid test(M *o) { QList v; v.@(); $get().@(); $m.l().@(); m.r().@(); m.p()->@(); m.mm.@(); o->mm.@(); ptr()->@(); ref().@(); use($get().@()); int *i = $o->l().@(); }", nullptr, "begin end constBegin constEnd cbegin cend", "Don't call QList::@() on temporary"},
    {"temporary-iterator", "struct QList { int *begin() const; ~QList(); }; struct @ { QList operator[](int) const; } h; struct QMap { QList at(int) const; QList @(int) const; } k;\nvoid test() { h[1].begin(); }", nullptr, "!QHash QMap QSet"},
    {"temporary-iterator", "struct QList { int *begin() const; ~QList(); }; struct Own { void f(int *); void @(); QList get(); };\nvoid test(Own o) { o.f(o.get().begin()); o.@(); }", nullptr, "begin~"},
    {"detaching-temporary", "struct QList { int @(); int x() const; ~QList(); }; QList get(); const QList cget(); QList &rget(); QList *pget(); struct M { static QList sget(); QList l(); const QList cl(); QList &r(); QList mm; } m; struct QGlobalStatic { QList op(); } gs; struct Other { int @(); }; Other oget();\nvoid test() { QList v; v.@(); $get().@(); cget(); rget().@(); pget()->@(); m.mm.@(); $m.l().@(); m.r().@(); $M::sget().@(); gs.op().@(); oget().@(); get().x(); m.cl(); }", nullptr, "first last begin end rbegin rend front back takeAt takeFirst takeLast removeOne removeAll erase", "Don't call QList::@() on temporary"},
    {"detaching-temporary", "struct QList { void @(); }; QList get(); void test() { $get().@(); }", nullptr, "takeAt takeFirst takeLast removeOne removeAll erase first=constFirst last=constLast front=constFirst back=constLast begin=cbegin end=cend rbegin=crbegin rend=crend"},
    {"detaching-temporary", "struct QSet { struct iterator {}; iterator @(int); }; QSet get(); void test() { $get().@(1); }", nullptr, "erase insert begin=cbegin end=cend find=constFind"},
    {"detaching-member", "struct QList { int @(); QList &self(); }; struct B { QList m; }; QList g; static QList sg;\nstruct A : B { QList o; static QList st; QList *ptr; void f(B b, A *a) { QList l; l.@(); g.@(); sg.@(); $o.@(); $this->o.@(); $m.@(); $b.m.@(); $a->o.@(); if ($o.@()) {} int v = $o.@(); int w = $o.@() + 1; -o.@(); !o.@(); } };", nullptr, "first last begin end rbegin rend front back", "Potential detachment due to calling QList::@()"},
    {"detaching-member", "struct QList { int &@(); }; struct A { QList o; void f(int y) { o.@() = 1; o.@() += 2; y = $o.@(); int *p = &o.@(); y += $o.@(); } };", nullptr, "first last begin end rbegin rend front back", "Potential detachment due to calling QList::@()"},
    {"detaching-member", "struct QList { int @() const; int @(); }; struct A { QList o; void f() const { o.@(); } void g() { $o.@(); } };", nullptr, "first last begin end rbegin rend front back", "Potential detachment due to calling QList::@()"},
    {"detaching-member", "struct T { T &operator+(int); int v; }; int operator*(T, T); struct QList { T @(); }; struct A { QList o; void f() { o.@() + 1; } };", nullptr, "first~ last~"},
    {"qdeleteall", "template <typename T> void qDeleteAll(const T &); void other(int); struct @ { int values() const; int keys() const; int values(int) const; int nope() const; } ; struct H { @ m; };\nvoid test(@ h, const @ c, @ *p, H o) { $qDeleteAll(h.values()); other(h.values()); h.values(); qDeleteAll(h.nope()); qDeleteAll(h.values(1)); $qDeleteAll(h.keys()); qDeleteAll(1 + 2); }", nullptr, "QSet QMap QHash QMultiHash QMultiMap", "qDeleteAll() is being used on an unnecessary temporary container created by @::"},
    {"isempty-vs-count", "struct @ { ~@(); int size() const; int other() const; }; @ get(); void test() { bool a = $get().size() == 0; bool b = $get().size() > 0; bool c = $get().size() < 1; bool d = get().size() == 1; bool e = get().size() > 1; bool f = get().size() < 2; bool g = get().size() < 0; bool h = get().other() == 0; bool i = get().other() > 0; bool j = get().other() < 1; }", nullptr, "QList QHash QMap QMultiHash QMultiMap", "use isEmpty() instead"},
    {"isempty-vs-count", "struct @ { int size() const; int other() const; }; void f(int); bool g(bool b); void test(@ c, @ *p) { if ($c.size()) {} while (!$c.size()) {} bool b = $c.size(); b = c.other(); int n = c.size(); f(c.size()); g($p->size()); b = $c.size() && 1; b = c.size() == 1; for (; $c.size();) {} b = $c.size() ? 1 : 0; long l = c.size(); if (c.size() > 3) {} }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QVarLengthArray QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList", "use isEmpty() instead"},
    {"container-inside-loop", "struct @ { @(); @(int); @(const @ &); ~@(); void append(int); }; @ get(); void use(const @ &); void mod(@ &); void ptr(@ *);\nvoid test(int n) { @ out; for (int i = 0; i < n; ++i) { @ $a; a.append(i); out.append(1); } do { @ $c; c.append(1); } while (n); for (;;) { if (n) { @ $e(3); e.append(2); } } { @ f; f.append(1); } for (;;) { @ g, h; } for (;;) { @ $p; use(p); } for (;;) { @ y; mod(y); } for (;;) { @ z; ptr(&z); } for (@ q;;) {} auto l = [] { @ s; s.append(1); }; for (@ t; n;) { t.append(1); } }", nullptr, "QVector QList", "container inside loop causes unneeded allocations"},
    {"qmap-with-pointer-key", "template <typename K, typename V> struct @ {}; template <typename K> struct QMultiMap {}; struct T;\n$@<int *, int> a; @<int, int *> b; @<int (&)[3], int> *c; void f($@<const T *, int> p, const @<int, int> &q) { $static @<T **, int> s; }", nullptr, "QMap", "Use QHash<K,T> instead of QMap<K,T> when K is a pointer"},
    {"qhash-with-char-pointer-key", "template <typename K, typename V> struct @ {}; struct T;\n$@<char *, int> a; @<char **, int> b; @<char, int> c; @<const int *, int> d; $@<const unsigned char *, T *> e; $@<signed char *, int> f; @<void *, int> g; @<wchar_t *, int> h;", nullptr, "QHash", "Using QHash<const char *, T> is dangerous"},
    {"qhash-namespace", "namespace n { struct S {}; enum class E { A }; namespace m { struct T {}; $int @(S, int); unsigned @(const T &); } unsigned @(S); $unsigned @(int); unsigned @(E); } struct G {}; unsigned @(G); namespace o { $unsigned @(G p); $unsigned @(const n::S &, int = 0); } $unsigned @(const n::m::T &); struct M { unsigned @(n::S); }; unsigned @(); unsigned other(n::S); $unsigned @(n::E);", nullptr, "qHash"},
    {"mutable-container-key", "template <typename T> struct QPointer {}; template <typename T> struct QSharedPointer {}; template <typename K, typename V> struct @ {}; struct Key {};\n@<int, QPointer<int>> n; @<Key, int> a; @<QSharedPointer<int>, int> c; @<QPointer<int> *, int> d; void f($@<QPointer<Key>, int> p) { $static @<QPointer<int>, int> s; }", nullptr, "QMap QHash", "Associative container key might be modified externally"},
    {"range-loop-detach", "struct @ { int *begin(); int *end(); int *begin() const; int *end() const; ~@(); }; struct H { @ m; const @ cm; @ &r; @ get() const; const @ cget() const; } ; @ get(); const @ cget(); @ &ref(); const @ &cref(); @ glob; void use(@ &); void cuse(const @ &);\nvoid test(H h, H *p, const H &c, @ arg, const @ &carg, @ *ptr) { $for (int i : h.m) {} for (int i : h.cm) {} $for (int i : p->m) {} for (int i : c.m) {} $for (int i : h.r) {} $for (const int &i : p->m) {} for (int &i : p->m) {} for (auto &i : p->m) {} $for (const auto &i : p->m) {} $for (int i : get()) {} for (int i : cget()) {} $for (int i : ref()) {} for (int i : cref()) {} $for (int i : h.get()) {} for (int i : h.cget()) {} $for (int i : glob) {} $for (int i : *ptr) {} for (int i : carg) {} for (auto &&i : p->m) {} }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "c++11 range-loop might detach Qt container (@)"},
    {"container-anti-pattern", "struct @ { @ toList() const; int count() const; @ values() const; int at(int) const; ~@(); }; void use(const @ &); struct H { @ m; };\nvoid test(@ c, H h) { $c.toList().count(); c.toList(); use(c.toList()); @ l = c.toList(); $h.m.toList().at(1); c.count(); int n = $c.toList().count(); }", nullptr, "QVector QSet QList", "allocating an unneeded temporary container"},
    // ---- r2.py
    {"returning-data-from-temporary", "struct QByteArray { QByteArray(); ~QByteArray(); const char *@() const; char *p; int size() const; }; struct QString { QString(const char *); ~QString(); QByteArray toUtf8() const; }; QByteArray get(); const QByteArray cget(); QByteArray &rget(); struct H { QByteArray m; const char *f() { return m.@(); } };\nconst char *t1() { QByteArray b; return $b.@(); }\nconst char *t2() { const QByteArray b; return b.@(); }\nconst char *t3() { static QByteArray b; return b.@(); }\nconst char *t4(QByteArray b, QByteArray &r, int n) { if (n == 1) return $b.@(); if (n == 2) return r.@(); if (n == 3) return cget().@(); if (n == 4) return rget().@(); if (n == 5) { int i = b.size(); } return $get().@(); }\nQString t5() { QByteArray b; return b.@(); }\nvoid t6(QString s, QByteArray b) { const char *c1 = $s.toUtf8().@(); const char *c2 = b.@(); const char *c3 = rget().@(), *c4 = $get().@(), c5 = *get().@(); auto c6 = $get().@(); bool c7 = get().@(); const char *c8; QString q(get().@()); } void t7(const char *); void t8() { t7(get().@()); }", nullptr, "data constData", "Returning data of temporary QByteArray"},
    {"qgetenv", "struct QByteArray { int toInt(bool *ok = nullptr, int base = 10) const; int @(int = 0, int = 0) const; bool isEmpty(); ~QByteArray(); }; QByteArray qgetenv(const char *); QByteArray get(const char *); enum { Ten = 10 };\nvoid test(int base) { bool ok; $qgetenv(\"V\").toInt(); $qgetenv(\"V\").toInt(&ok); $qgetenv(\"V\").toInt(&ok, 0); qgetenv(\"V\").toInt(&ok, 10); qgetenv(\"V\").toInt(&ok, 16); qgetenv(\"V\").toInt(&ok, base); qgetenv(\"V\").toInt(nullptr, Ten); $qgetenv(\"V\").toInt(nullptr, 0); get(\"V\").toInt(); QByteArray b = qgetenv(\"V\"); b.toInt(); qgetenv(\"V\").@(); $qgetenv(\"V\").isEmpty(); }", nullptr, "?isEmpty isNull toInt"},
    {"wrong-qglobalstatic", "template <typename T> struct @ { @(); @(int); @(const @ &); ~@(); }; struct Trivial { int i; }; struct Ctor { Ctor(); }; struct Dtor { ~Dtor(); }; struct Both { Both(); ~Both(); }; struct Base : Ctor {}; struct Member { Dtor d; }; struct Def { Def() = default; int i; }; struct Init { int i = 2; }; template <typename T> struct Other { Other(int); };\n@<Trivial> $x; @<Ctor> a; @<Dtor> b; @<Both> c; @<Base> d; @<Member> e; @<Def> $f; @<Init> g; @<int> $h; @<int *> $i(2); Other<int> j(3); @<Trivial> &k = x; void fn() { static @<Trivial> $l(4); }", nullptr, "QGlobalStatic QGlobalStaticCompoundStmt", "Don't use Q_GLOBAL_STATIC with "},
    {"qstring-insensitive-allocation", "struct QString { QString(); QString(const char *); ~QString(); QString @() const; QString simplified() const; bool contains(const QString &) const; bool startsWith(const QString &) const; int indexOf(const QString &) const; static int compare(const QString &, const QString &); int compare(const QString &) const; }; struct Mine { QString @() const; bool contains(const QString &) const; }; struct H { QString m; } g;\nvoid test(QString a, QString b, Mine m, H h) { $a.@().contains(b); a.contains(b); a.@(); b.contains(a.@()); QString::compare(a.@(), b.@()); $h.m.@().startsWith(b); m.contains(a); a.@().indexOf(b); a.simplified().contains(b); $a.@().contains(b.@()); $a.@().compare(b); m.@().contains(a); if ($a.@().contains(a)) {} }", nullptr, "toLower toUpper", "unneeded allocation"},
    {"qdatetime-utc", "struct QDateTime { ~QDateTime(); static QDateTime currentDateTime(); static QDateTime currentDateTimeUtc(); static QDateTime fromTime(); int @() const; QDateTime addDays(int) const; }; QDateTime get();\nvoid test(QDateTime d) { $QDateTime::currentDateTime().@(); $QDateTime::currentDateTimeUtc().@(); d.@(); QDateTime::fromTime().@(); QDateTime::currentDateTime(); QDateTime::currentDateTime().addDays(1).@(); get().@(); int i = $QDateTime::currentDateTime().@(); auto x = QDateTime::currentDateTime().addDays(2); $d.currentDateTime().@(); }", nullptr, "toMSecsSinceEpoch toSecsSinceEpoch toTime_t toUTC", "Use QDateTime::current"},
    {"qstring-left", "struct QString { QString left(int) const; QString @(int) const; }; struct Mine { QString left(int) const; }; void test(QString a, Mine m, int n) { $a.left(0); $a.left(1); a.left(2); a.left(n); a.left(-1); m.left(0); QString s = $a.left(1); $a.left(2).left(1); a.left(1 + 0); a.left('a'); a.@(0); }", nullptr, "?left"},
    {"tr-non-literal", "struct QString { QString(const char *); }; struct QObject { static QString tr(const char *, const char * = nullptr, int = -1); static QString @(const char *); }; struct A : QObject { static QString nope(const char *); }; struct B { static QString tr(const char *); };\nvoid test(const char *s, const char a[4], A *o) { QObject::tr(\"a\"); $QObject::tr(s); $A::tr(s); $o->tr(a, \"b\"); A::nope(s); B::tr(s); QObject::tr(\"a\", s); QObject::tr(\"a\" \"b\"); QObject::tr((\"a\")); QObject::@(s); }", nullptr, "?tr", "tr() without a literal string"},
    {"install-event-filter", "struct QEvent; struct QObject { void installEventFilter(QObject *); void @(QObject *); virtual bool eventFilter(QObject *, QEvent *); }; struct F : QObject { bool eventFilter(QObject *, QEvent *) override; }; struct Mine { void installEventFilter(QObject *); };\nstruct A : QObject { QObject *m; F *f; F g; void t(QObject *o, QObject &r) { $installEventFilter(o); $this->installEventFilter(o); o->installEventFilter(this); m->installEventFilter(o); installEventFilter(f); installEventFilter(&g); $installEventFilter(&r); @(o); $installEventFilter(m); r.installEventFilter(o); Mine x; x.installEventFilter(o); $installEventFilter(this); } };", nullptr, "?installEventFilter", "'this' should usually be the filter object"},
    {"base-class-event", "struct QEvent; struct QObject { virtual ~QObject(); virtual bool event(QEvent *); virtual bool @(int, QEvent *); virtual bool eventFilter(QObject *, QEvent *); }; struct QWidget : QObject { bool event(QEvent *) override; }; struct M : QObject { bool event(QEvent *e) override { if (e) $return false; if (!e) return QObject::event(e); bool b = false; if (b) return b; return true; } bool eventFilter(QObject *, QEvent *) override { return false; } bool @(int, QEvent *) override { return false; } };\nstruct N : M { bool event(QEvent *e) override; bool eventFilter(QObject *, QEvent *) override { $return false; } }; struct W : QWidget { bool eventFilter(QObject *, QEvent *) override { return false; } };\nbool N::event(QEvent *e) { for (;;) { $return false; } while (e) { return true; } }\nbool event(QEvent *) { return false; } struct P { bool event(QEvent *) { return false; } };", nullptr, "?event eventFilter", "Return "},
    {"child-event-qobject-cast", "struct QObject { virtual ~QObject(); }; struct QEvent {}; struct QChildEvent : QEvent { QObject *child() const; QObject *other() const; }; template <typename T> T qobject_cast(QObject *); template <typename T> T other_cast(QObject *);\nstruct A : QObject { bool event(QEvent *e) { auto c = static_cast<QChildEvent *>(e); if (auto x = qobject_cast<A *>($c->child())) {} qobject_cast<A *>(c->other()); other_cast<A *>(c->child()); static_cast<A *>(c->child()); QObject *o = c->child(); qobject_cast<A *>(o); return qobject_cast<A *>($c->child()) != nullptr; } void childEvent(QChildEvent *); bool @(QChildEvent *c) { qobject_cast<A *>(c->child()); return false; } };\nvoid A::childEvent(QChildEvent *c) { { qobject_cast<A *>($c->child()); } } void childEvent(QChildEvent *c) { qobject_cast<A *>(c->child()); } struct B { void childEvent(QChildEvent *c) { qobject_cast<A *>(c->child()); } };", nullptr, "?event childEvent eventFilter", "qobject_cast in childEvent"},
    {"writing-to-temporary", "struct Sz { ~Sz(); void setW(int); void setC(int) const; int setR(int); static void setS(); void @(int); void put(int); Sz self(); Sz &ref(); Sz copy() const; }; Sz get(); Sz *pget(); Sz &rget(); const Sz &crget(); struct H { Sz s() const; Sz m; static Sz st(); };\nvoid test(H h, Sz s, Sz *p) { $get().setW(1); pget()->setW(1); rget().setW(1); get().setC(1); get().setR(1); $h.s().setW(1); h.m.setW(1); s.setW(1); p->setW(1); $H::st().setW(2); get().put(1); $s.self().setW(1); s.ref().setW(1); get().@(1); get().self(); if (true) $h.s().setW(2); }", nullptr, "?set*", "Call to temporary is a no-op: Sz::setW"},
    {"writing-to-temporary", "struct @ { ~@(); void fill(int); void fillC(int) const; int fillR(int); static void fillS(); @ self(); @ &ref(); }; @ get(); @ *pget(); @ &rget();\nvoid test(@ s) { $get().fill(1); pget()->fill(1); rget().fill(1); get().fillC(1); get().fillR(1); s.fill(1); get().fillS(); $s.self().fill(1); s.ref().fill(2); }", nullptr, "QList QVector QMap QHash QString QSet QByteArray QUrl QVarLengthArray QLinkedList QRect QRectF QBitmap QVector2D QVector3D QVector4D QSize QSizeF QSizePolicy QPoint QPointF QColor", "Call to temporary is a no-op: @::fill"},
    {"unused-non-trivial-variable", "struct @ { @(); @(int); @(const @ &); ~@(); void f(); int i; }; void use(const @ &); @ get(); @ glob; struct H { @ m; }; struct Sub : @ {};\nint test(@ arg, int n) { $@ a; @ b; b.f(); @ c; use(c); @ d; d.i = 2; $@ e = get(); @ *f; @ g; auto p = &g; $@ h(3); [[maybe_unused]] @ j; @ k; auto l = [k] {}; @ m; auto o = [&] { m.f(); }; auto q = [] { $@ r; }; if (n) { $@ s; } for (@ u; n;) { use(u); } @ v; @ w = v; w = get(); @ z[2]; @ bb; (void)bb; H cc; Sub dd; return n; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QVarLengthArray QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QSequentialIterable QAssociativeIterable QJsonArray QJsonObject QLinkedList QColor QVariant QFont QUrl QIcon QImage QPixmap QPicture QBitmap QBrush QPen QBuffer QCache QDateTime QDir QEvent QFileInfo QFontInfo QFontMetrics QJSValue QLocale QRegularExpression QRegExp QUrlQuery QStorageInfo QPersistentModelIndex QJsonValue QJsonDocument QMimeType QBitArray QCollator QByteArrayList QCollatorSortKey QCursor QPalette QPainterPath QRegion QTextCursor QStaticText QFontMetricsF QTextFrameFormat QTextImageFormat QNetworkCookie QNetworkRequest QNetworkConfiguration QHostAddress QSqlQuery QSqlRecord QSqlField QLine QLineF QRect QRectF QDomNode", "unused @ "},
    {"use-arrow-operator-instead-of-data", "struct T { void f() const; T *data() const; int i; }; template <typename X> struct @ { X *data() const; X *other() const; X *operator->() const; }; template <typename X> struct Mine { X *data() const; }; @<T> get(); struct H { @<T> m; };\nvoid test(@<T> p, @<T> *q, Mine<T> m, H h, T t) { $p.data()->f(); p.other()->f(); p->f(); m.data()->f(); t.data()->f(); $q->data()->f(); $h.m.data()->f(); p.data(); T *x = p.data(); (*$p.data()).f(); p.data()->i = 1; static_cast<const T *>(p.data())->f(); }", nullptr, "QScopedPointer QPointer QSharedPointer QSharedDataPointer", "Use operator -> directly instead of @::data()->"},
    {"qfileinfo-exists", "struct QString { QString(const char *); ~QString(); }; struct QFileInfo { QFileInfo(const QString &); QFileInfo(int); ~QFileInfo(); bool @() const; bool isDir() const; static bool exists(const QString &); }; struct Mine { Mine(const QString &); bool exists(); };\nvoid test(QString s, QFileInfo f) { $QFileInfo(s).@(); f.@(); QFileInfo(s).isDir(); QFileInfo(1).@(); QFileInfo::exists(s); Mine(s).exists(); bool b = $QFileInfo(\"x\").@(); QFileInfo g(s); g.@(); if (!$QFileInfo(s).@()) {} }", nullptr, "exists", "Use the static QFileInfo::exists() instead"},
    {"non-pod-global-static", "struct @ { @(); ~@(); }; struct Triv { int i; }; struct Dt { ~Dt(); }; struct Ce { constexpr Ce() : i(1) {} int i; }; struct Ct { Ct(); }; struct TrivC { TrivC() = default; TrivC(int); int i; };\n$static @ a; @ b; extern @ c; struct S { static @ d; }; static Triv e; $static Dt f; static Ce g; constexpr Ce h; $static Ct i; static TrivC j; $static TrivC k(2); namespace { $@ l; } static @ *m; static int n = 2; void t() { static @ o; @ p; } static @ &q = b; $const Dt r; thread_local Triv s; namespace N { $static @ u; } static Triv v[3]; template <typename T> struct W { static T w; };", nullptr, "?Holder AFUNC QLoggingCategory QThreadStorage QQmlModuleRegistration"},
    {"post-event", "struct QEvent { QEvent(int); ~QEvent(); }; struct QObject {}; struct QCoreApplication { static void @(QObject *, QEvent *); static void sendEvent(QObject *, QEvent *); }; struct Mine { static void postEvent(QObject *, QEvent *); }; struct Sub : QEvent { Sub(); };\nvoid test(QObject *o, QEvent *p) { QEvent e(1); $QCoreApplication::@(o, &e); QCoreApplication::@(o, new QEvent(1)); QCoreApplication::sendEvent(o, &e); Mine::postEvent(o, &e); QEvent *h = new QEvent(2); QCoreApplication::@(o, h); QCoreApplication::@(o, p); QCoreApplication::@(o, nullptr); }", nullptr, "postEvent", "Events passed to postEvent should be heap allocated"},
    {"virtual-call-ctor", "struct A { A(); ~A(); A(int); virtual void pure() = 0; virtual void virt(); void @(); void safe() { virt(); } void deep() { @(); } };\nvoid A::@() { pure(); }\n$A::A() { if (true) { safe(); $deep(); } }\nA::~A() { safe(); }\nA::A(int i) { while (i) { auto l = [this] { pure(); }; } virt(); }\nstruct B : A { void pure() override; B() { pure(); } ~B() { deep(); } };", nullptr, "?A B pure virt safe deep", "Calling pure virtual function in "},
    {"virtual-call-ctor", "struct A { A(); virtual ~A(); virtual void @() = 0; void other() { @(); } };\nA::A() { }\n$A::~A() { $other(); }\nstruct C { C() { c->@(); c->other(); } C *c; virtual void @() = 0; void other() { @(); } };", nullptr, "?A C other c", "Calling pure virtual function in DTOR"},
    // ---- r3.py
    {"virtual-signal", "#define signals public\n#define slots\nstruct @ { virtual ~@(); }; struct I { virtual void own(); }; struct A : @, I { void plain(); virtual void virt(); signals: void sig(); $virtual void one(); void own() override; public slots: virtual void slt(); signals: $virtual void two() = 0; private: virtual void three(); }; struct B : A { signals: $void one() override; public: void two() override; }; struct C { virtual void four(); };", nullptr, "QObject", "signal is virtual"},
    {"overridden-signal", "#define signals public\n#define slots\nstruct @ { virtual ~@(); }; struct A : @ { void plain(); void both(); signals: void sig(); void twice(int); public slots: void slt(); }; struct M : A { }; struct B : M { void plain(); $void sig(); void sig(int); signals: $void both(); $void twice(int); void twice(char); $void slt(); void fresh(); }; struct C : @ { signals: void sig(); }; struct D { void sig(); };", nullptr, "QObject"},
    {"overloaded-signal", "#define signals public\n#define slots\nstruct @ { virtual ~@(); }; struct A : @ { void a(); void b(int); signals: void c(); $void a(int); $void d(); $void d(int); void e(int x); public slots: void f(); void f(int); }; struct B : A { signals: $void c(int); void e(int y); $void b(); public: void d(char); };", nullptr, "QObject", "signal "},
    {"signal-with-return-value", "#define signals public\n#define slots\nstruct @ { virtual ~@(); }; template <typename T> struct P {}; struct A : @ { int a(); signals: $int b(); void c(); void d(int); $void e(int &); void f(const int &); void g(int *); $void h(int, P<int> &, char); $void *i(); $P<int> j(); public: int l(int &); private slots: int m(int &); signals: $bool n() const; }; struct B { int o(int &); };", nullptr, "QObject"},
    {"connect-by-name", "#define signals public\n#define slots\nstruct @ { virtual ~@(); }; struct A : @ { void on_a_b(); public slots: $void on_c_d(); void on_c_d_e(); void on_cd(); void onc_d_e(); $void on_button_clicked(bool); private slots: $void on_x_y(); void Xon_a_b(); signals: void on_s_g(); }; struct B { public slots: void on_f_g(); };", nullptr, "QObject", "Slots named on_foo_bar are error prone"},
    {"skipped-base-method", "struct G { void f(); void g(); void h(int); static void s(); virtual void v(); }; struct P : G { void f(); void v() override; }; struct B : P { void g(); }; struct A : B { void @() { $G::f(); P::f(); f(); this->f(); $G::g(); G::h(1); $this->G::f(); B::g(); G::s(); $G::v(); if (true) { $G::g(); } } void tst(A *o) { o->G::f(); auto l = [this] { $G::f(); }; } };", nullptr, "?G P B A f g h s v tst o l", "Maybe you meant to call "},
    {"thread-with-slots", "#define signals public\n#define slots\nstruct QObject { virtual ~QObject(); }; struct QMutex { void lock(); }; struct QMutexLocker { QMutexLocker(QMutex *); ~QMutexLocker(); }; struct @ : QObject { int q; public slots: void quit() { q = 1; } }; struct T : @ { int m; QMutex mu; void plain() { m = 1; } signals: void sig() { m = 1; } public slots: $void a() { m = 1; } void b(); void c() { int i = 1; } void d() { mu.lock(); m = 1; } void e() { QMutexLocker l(&mu); m = 2; } $void f() { if (m) return; } void h(); void i(int) {} private slots: $int j() { return this->m; } }; $void T::h() { m = 2; } struct U : QObject { int n; public slots: void k() { n = 1; } }; struct V : T { public slots: $void w() { m = 1; } };", nullptr, "QThread"},
    {"connect-non-signal", "#define signals public\n#define slots\nstruct QObject { virtual ~QObject(); template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G) {} };\nstruct S : QObject { void p(); signals: void s(); void s2(int); public slots: void t(); public: void @(); }; struct D : S { void own(); };\nvoid test(S *s, D *d, void (S::*var)()) { QObject::connect(s, &S::s, s, &S::t); $QObject::connect(s, &S::p, s, &S::t); $S::connect(s, &S::t, s, &S::p); QObject::connect(d, &D::s2, s, &S::t); $QObject::connect(d, &D::own, s, &S::t); QObject::connect(s, &S::s, s, [] {}); $QObject::connect(s, &S::@, s, &S::t); QObject::connect(s, &S::s, s, &S::p); }", nullptr, "?S D s s2 p t own"},
    {"connect-3arg-lambda", "struct QObject { int v; void g() const; template <typename F> static void connect(const QObject *, int, F) {} template <typename F> static void connect(const QObject *, int, const QObject *, F) {} template <typename F> static void @(const QObject *, F, int) {} }; struct QTh : QObject {}; struct Plain { int v; }; void fn();\nstruct A : QObject { int m; QObject *sib; void t(QObject *o, QObject *other, Plain *p, int i, QTh &r) { QObject::connect(o, 1, [o] { o->g(); }); $QObject::connect(o, 1, [other] { other->g(); }); QObject::connect(o, 1, [p] { p->v = 1; }); QObject::connect(o, 1, [i] { int j = i; }); QObject::connect(o, 1, [] { fn(); }); $QObject::connect(o, 1, [this] { m = 1; }); QObject::connect(this, 1, [this] { m = 1; }); QObject::connect(o, 1, other, [other] { other->g(); }); $QObject::connect(o, 1, [o, other] { o->g(); other->g(); }); QObject::connect(o, 1, &fn); $QObject::connect(this, 1, [other] { other->g(); }); $QObject::connect(o, 1, [&] { r.g(); }); $QObject::connect(sib, 1, [this] { sib->g(); }); auto l = [other] { other->g(); }; } };", nullptr, "?connect", "Pass a context object as 3rd connect parameter"},
    {"lambda-in-connect", "struct QObject { template <typename F> static void connect(const QObject *, int, F) {} template <typename F> static void connect(const QObject *, int, const QObject *, F) {} template <typename F> static void @(const QObject *, F, int) {} }; template <typename F> void call(F); int glob;\nstruct A : QObject { int m; void t(QObject *o, int i, int &r, QObject other) { int local = 1; static int st; QObject::connect(o, 1, [&$local] { local = 2; }); QObject::connect(o, 1, [local] { int j = local; }); QObject::connect(o, 1, [&$local = local] {}); call([&local] { local = 2; }); QObject::connect(o, 1, o, [this, &i] { i = m; }); QObject::connect(o, 1, [=] { int j = local; }); QObject::connect(o, 1, [] {}); QObject::connect(&other, 1, [&local] { local = 1; }); auto l = [&local] { local = 3; }; QObject::connect(o, 1, l); QObject::@(o, [&local] { local = 2; }, 1); } };", nullptr, "?connect", "captured local variable by reference"},
    {"lambda-unique-connection", "namespace Qt { enum ConnectionType { AutoConnection, UniqueConnection, @ }; }\nstruct QObject { template <typename F, typename G> static void connect(const QObject *, F, const QObject *, G, Qt::ConnectionType = Qt::AutoConnection) {} template <typename F> static void connect(const QObject *, F, F, int, Qt::ConnectionType) {} static void connect(const QObject *, const char *, const QObject *, const char *, Qt::ConnectionType); };\nstruct S : QObject { void foo(); static void st(); }; void fn(); struct Fu { void operator()(); };\nvoid test(S *s, Qt::ConnectionType t) { QObject::connect(s, &S::foo, s, [] {}, $Qt::UniqueConnection); QObject::connect(s, &S::foo, s, [] {}); QObject::connect(s, &S::foo, s, [] {}, Qt::AutoConnection); QObject::connect(s, &S::foo, s, &S::foo, Qt::UniqueConnection); QObject::connect(s, &S::foo, s, fn, $Qt::UniqueConnection); QObject::connect(s, &S::foo, s, Fu(), $Qt::ConnectionType(Qt::@ | Qt::UniqueConnection)); QObject::connect(s, \"1\", s, \"2\", Qt::UniqueConnection); QObject::connect(s, &S::foo, s, [] {}, t); QObject::connect(s, &S::foo, s, [] {}, Qt::@); QObject::connect(s, &S::foo, &S::foo, 1, Qt::UniqueConnection); }", nullptr, "?UniqueConnection AutoConnection ConnectionType", "UniqueConnection is not supported with non-member functions"},
    // ---- r4.py
    {"rule-of-three", "struct T0 { }; $struct T1 { ~T1() { int i = 0; } }; $struct T2 { T2(const T2 &); }; $struct T3 { T3 &operator=(const T3 &); }; struct T4 { T4(const T4 &); T4 &operator=(const T4 &); ~T4(); }; $struct T5 { T5(const T5 &); ~T5(); }; $struct T6 { T6(const T6 &); T6 &operator=(const T6 &); }; struct T7 { ~T7() { } }; struct T8 { ~T8(); T8(const T8 &) = delete; }; struct T9 { ~T9(); const int c; }; class Ta { protected: ~Ta(); }; struct Tb { virtual ~Tb(); }; struct Tc { ~Tc() = default; }; struct Td { ~Td() = default; Td(const Td &); Td &operator=(const Td &); }; struct Te; $struct Tf { Tf(int); ~Tf() { int i = 0; } }; struct Tk { Tk(int); ~Tk(); }; struct @ {}; struct Tg { ~Tg(); @ m; }; $struct Ti { ~Ti() { int i = 0; } Ti(const Ti &) = default; }; struct Tj { ~Tj(); Tj &operator=(const Tj &) = delete; };", nullptr, "?QSharedDataPointer QSharedData T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 Ta Tb Tc Td Te Tf Tg Ti Tj Tk i"},
    {"rule-of-two-soft", "struct T1 { T1(); T1(const T1 &) {} }; struct T2 { T2(); T2 &operator=(const T2 &) { return *this; } }; struct T3 { T3(); T3(const T3 &) {} T3 &operator=(const T3 &) { return *this; } }; struct T4 { T4(); T4(const T4 &) {} T4 &operator=(const T4 &) = default; T4 &operator=(int); }; struct T5 { T5(); T5(const T5 &) = default; T5 &operator=(const T5 &) { return *this; } }; struct T6 { int i; }; struct @ {}; struct Zz { T2 m; Zz(const T2 &x) : $m(x) {} };\nvoid f(T1 &a, T1 &b, T2 &c, T2 &d, T3 &e, T3 &g, T4 &h, T4 &i, T5 &j, T5 &k, T6 &l, T6 &m, @ &p, @ &q) { $a = b; c = d; e = g; h = i; j = k; l = m; p = q; T1 aa(a); T2 $cc(c); T3 ee(e); T4 hh(h); T5 jj(j); T6 ll(l); @ pp(p); h = 1; if (true) $b = a; T2 ff = $d; }", nullptr, "?Zz f T1 T2 T3 T4 T5 T6"},
    {"function-args-by-value", "struct Sm { int a, b; }; struct Big { char c[17]; }; struct Fit { char c[16]; }; struct Non { ~Non(); int a; }; struct Fwd; struct Cc { Cc(const Cc &); int a; };\nvoid @($const Sm &a, const Big &b, $const Fit &c, const Non &d, const Fwd &e, const Cc &g, Sm &h, Sm i, const Sm *j, Sm &&k) {}\nvoid dcl(const Sm &a); struct T { T(const T &); T($const Sm &s, const Sm &t) : r(t), q(s) {} const Sm &r; Sm q; virtual void v($const Sm &s) {} static void st($const Sm &s) {} void del(const Sm &s) = delete; }; struct U : T { void v(const Sm &s) override {} }; template <typename X> void tp(const X &x) {}\nvoid two(const Sm &); void two($const Sm &s) {}", nullptr, "?T U v st dcl del tp two Sm Big Fit Non Fwd Cc"},
    {"copyable-polymorphic", "$struct A { virtual void f(); }; struct B { void f(); }; struct C { virtual void f(); C(const C &) = delete; C &operator=(const C &) = delete; }; $struct D { virtual ~D(); C *p; }; class E { virtual void f(); E(const E &); E &operator=(const E &); }; struct F : C { }; struct Fwd; class G { protected: G(const G &); G &operator=(const G &); virtual void f(); }; struct @ final : G { }; $struct I : G { void f(); }; $struct J : A { }; struct K : B { }; struct L { virtual void f(); private: L(const L &); L &operator=(const L &); };", nullptr, "?A B C D E F Fwd G I J K L"},
    {"ctor-missing-parent-argument", "struct @ { @(@ *parent = nullptr); virtual ~@(); }; $struct A : @ { A(); }; struct B : @ { B(@ *p = nullptr); }; struct C : @ { }; struct D : @ { D(); D(int, @ *q); }; $struct E : A { E(int); }; struct F : @ { using @::@; }; struct G { G(); }; $struct H : B { H(const H &); H(G *); };", nullptr, "QObject"},
    {"heap-allocated-small-trivial-type", "void *operator new(unsigned long, void *); struct Sm { int a, b; }; struct Big { char c[17]; }; struct Non { ~Non(); }; void use(Sm *); Sm *glob = new Sm; struct Mem { Sm *m; };\nSm *@(Mem &o, void *mem, int n) { auto a = $new Sm; Sm *b = $new Sm(); auto c = new Big; auto d = new Non; auto e = new Sm[2]; auto f = new (mem) Sm; auto g = new Sm; use(g); auto h = new Sm; o.m = h; auto k = new Sm; if (n) return k; auto l = new int; delete b; return nullptr; }", nullptr, "?use glob", "Don't heap-allocate small trivially copyable/destructible types: "},
    {"returning-void-expression", "void v(); int i(); struct S { void m(); S(); }; void @() { if (i()) $return v(); if (i()) return; S s; if (i()) { $return s.m(); } for (;;) $return (void)0; } void b() { v(); return; } int c() { return i(); } template <typename T> T d() { return v(); } template void d<void>(); S::S() { }  void e() { $return @(); }", nullptr, "?v i S m b c d e s", "Returning a void expression"},
    {"static-pmf", "struct @ { virtual ~@(); void f(); int d; }; struct A : @ { void g() const; void t(); static void s(); }; struct P { void f(); };\nvoid (A::*glob)() = nullptr; void A::t() { $static void (A::*a)() = &A::t; $static auto b = &A::g; auto c = &A::t; static auto d = &P::f; static auto e = &A::s; static int @::*f = &@::d; $static const auto g = &@::f; static void (*h)() = &A::s; } struct C { static void (A::*m)(); };", nullptr, "QObject", "Static pointer to member has portability issues"},
    {"qrequiredresult-candidates", "struct T { T() ; $T trimmed() const; T trim() const; T rounded(); int counted() const; $T added(int) const; [[nodiscard]] T noded() const; T toed() const; static T made(); $T sorted() const { return *this; } T &refed() const; T *ptred() const; virtual T @() const; private: T hided() const; protected: $T proted() const; struct N { $N zed() const; }; }; T T::trimmed() const { return *this; } T tested(); struct U : T { T baseed() const; $U owned() const; };", nullptr, "?*ed", "Add Q_REQUIRED_RESULT to "},
    {"assert-with-side-effects", "#define Q_ASSERT(x) ((x) ? (void)0 : (void)1)\n#define OTHER(x) ((x) ? (void)0 : (void)1)\nint g; bool fn(int); struct S { int m; };\nvoid test(int @, bool b, int *p, S s) { $Q_ASSERT(@ = 1); Q_ASSERT(!b); Q_ASSERT(-@); $Q_ASSERT(@++); $Q_ASSERT(--g); $Q_ASSERT(@ += 2); Q_ASSERT(*p); Q_ASSERT(&@); Q_ASSERT(@ == 1 && ~@); OTHER(@ = 2); @ = 3; $Q_ASSERT(b && (g = 4)); }", nullptr, "?b p s g fn S m l", "Code inside Q_ASSERT has side-effects"},
    {"global-const-char-pointer", "$const char *a = \"\"; $char *b; const char *const c = \"\"; extern const char *d; static const char *e = \"\"; namespace { const char *f; } namespace N { $const char *@; static char *g; } struct S { static const char *h; const char *i; }; void t(const char *j) { const char *k; static const char *l; } const char m[] = \"\"; const char n = 0; const char **o; $const unsigned char *p; $inline const char *q; constexpr const char *r = \"\"; template <typename T> $const char *u;", nullptr, "?a b c d e f g h i j k l m n o p q r u t S N", "non const global char *"},
    // ---- r5.py
    {"reserve-candidates", "struct @ { @(); ~@(); void append(int); void insert(int, int); void reserve(int); int size() const; @ &operator<<(int); @ &operator+=(int); }; struct Node { Node *next; int v; }; bool more(); int cnt(); @ get(); @ glob;\nvoid test(int n, Node *nd, @ &ref, @ arg, int *arr) { @ a; for (int i = 0; i < n; ++i) $a.append(i); @ b; b.reserve(n); for (int i = 0; i < n; ++i) b.append(i); @ c; for (int i = 0; i < n; ++i) { if (i) c.append(i); } @ d; while (n) d.append(1); @ e; for (; nd; nd = nd->next) e.append(1); @ f; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) f.append(1); } @ h; for (int i = 0; more(); ++i) h.append(i); @ k; for (int i = 0; i < cnt(); ++i) { int z = 0; $k << i; } @ l; for (;;) l.append(1); for (int i = 0; i < n; ++i) { @ m; m.append(1); } @ o; for (int i = 0; i < n; ++i) $o += i; for (int i = 0; i < n; ++i) ref.append(1); @ q; for (int i = 0; i < n; ++i) { q.size(); } @ s; for (int i = 0; i < arr[0]; ++i) s.append(1); @ t; do t.append(1); while (n); for (int i = 0; i < n; ++i) get().append(1); @ u; for (int i = 0; i < n; i = cnt()) $u.append(1); }", nullptr, "QVector QList QSet", "Reserve candidate"},
    {"unneeded-cast", "struct B { virtual ~B(); }; struct D : B { }; struct O { virtual ~O(); }; struct M : B, O { }; struct Fwd; template <typename T> T @(B *);\nvoid test(B *b, D *d, M *m, O *o, Fwd *f, const D *c, D &r, int n) { $static_cast<B *>(b); $static_cast<B *>(d); static_cast<D *>(b); static_cast<B *>(m); $dynamic_cast<B *>(d); dynamic_cast<D *>(b); dynamic_cast<O *>(b); reinterpret_cast<B *>(d); const_cast<D *>(c); (B *)d; n ? static_cast<B *>(d) : b; static_cast<B *>(nullptr); static_cast<void *>(d); static_cast<B &>(r); static_cast<long>(n); $static_cast<D *>(d); $static_cast<const B *>(c); }", nullptr, "?B D O M Fwd"},
    {"qvariant-template-instantiation", "struct @ { template <typename T> T value() const; template <typename T> T other() const; int value(int) const; }; struct Mine { template <typename T> T value() const; }; class QString {}; class QByteArray {}; class Own {}; enum E { X }; @ get();\nvoid test(@ v, Mine m, @ *p) { $v.value<int>(); $v.value<bool>(); $v.value<double>(); $v.value<float>(); $v.value<QString>(); $v.value<QByteArray>(); v.value<Own>(); v.value<E>(); v.value<int *>(); v.other<int>(); v.value(1); m.value<int>(); $get().value<QString>(); }", nullptr, "QVariant", "Use QVariant::to"},
    {"qstring-comparison-to-implicit-char", "struct QChar { QChar(int); QChar(char); }; struct @ { bool operator==(int) const; }; bool operator==(const @ &, QChar); bool operator!=(const @ &, QChar); bool operator==(QChar, const @ &); struct Mine {}; bool operator==(const Mine &, QChar);\nvoid test(@ s, Mine m, int n) { s == 1; m == 1; s != 1; 1 == s; s == n; }", nullptr, "zzz~"},
    {"qstring-comparison-to-implicit-char", "struct QChar { QChar(int); QChar(char); }; struct @ { }; bool operator==(const @ &, QChar); bool operator!=(const @ &, QChar); bool operator==(QChar, const @ &); struct Mine {}; bool operator==(const Mine &, QChar);\nvoid test(@ s, Mine m, int n) { $s == 1; m == 1; s != 1; 1 == s; s == n; s == 'a'; s == QChar('a'); if ($s == 0) {} }", nullptr, "QString", "QString being compared to implicit QChar"},
    {"qlatin1string-non-ascii", "struct @ { @(const char *); @(const @ &); }; struct Mine { Mine(const char *); }; void use(@);\nvoid test(const char *p) { @ a(\"abc\"); @ $b(\"ab\\xc3\\xa9\"); Mine c(\"\\xc3\"); @ d(p); use($@(\"\\x80\")); use(@(\"\\x7f\")); use(@(\"\")); @ e = $@(\"a\\xffz\"); }", nullptr, "QLatin1String", "QLatin1String with non-ascii literal"},
    {"raw-environment-function", "char *getenv(const char *); int putenv(char *); int setenv(const char *, const char *, int); int @(const char *); namespace N { char *getenv(const char *); } struct S { int putenv(char *); static char *getenv(const char *); };\nvoid test(S s, char *p) { $getenv(\"a\"); $putenv(p); setenv(\"a\", \"b\", 1); @(\"a\"); s.putenv(p); if ($::getenv(\"b\")) {} char *(*f)(const char *) = &getenv; auto x = $getenv(p); N::getenv(p); S::getenv(p); }", nullptr, "?getenv putenv setenv", "Prefer using q"},
    // ---- r6.py
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QMap { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QMap m, other; void f(T &o, T *p, QMap arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "begin end find first last lowerBound upperBound keyValueBegin keyValueEnd", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QHash { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QHash m, other; void f(T &o, T *p, QHash arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "begin end find", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QVector { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QVector m, other; void f(T &o, T *p, QVector arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "first last begin end rbegin rend front back data fill", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QList { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QList m, other; void f(T &o, T *p, QList arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "first last begin end rbegin rend front back", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QString { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QString m, other; void f(T &o, T *p, QString arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "begin end rbegin rend data", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QStack { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QStack m, other; void f(T &o, T *p, QStack arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "first last begin end rbegin rend front back data top", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QJsonObject { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QJsonObject m, other; void f(T &o, T *p, QJsonObject arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "begin end find", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QImage { int @(); int constFind() const; int operator[](int); };\nstruct T { Lock *l; QImage m, other; void f(T &o, T *p, QImage arg) { m.@(); QReadLocker r(l); $m.@(); arg.@(); m.constFind(); $o.m.@(); $this->m.@(); $p->other.@(); if (l) { $m.@(); } while ($m.@()) ; r.unlock(); m.@(); } void g() { m.@(); } void h() { QWriteLocker w(l); m.@(); } void i() { { QReadLocker r(l); int n = $m.@() + 1; } m.@(); } void j() { auto f = [this] { m.@(); }; m.@(); } };", nullptr, "bits scanLine", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct @ { int begin(); };\nstruct T { Lock *l; QReadWriteLock rw; @ m; static @ s; void f(T &o, @ &arg) { m.begin(); rw.lockForRead(); $m.begin(); arg.begin(); $o.m.begin(); rw.unlock(); m.begin(); } void g(@ *p) { rw.lockForRead(); rw.unlock(); m.begin(); rw.lockForRead(); $m.begin(); p->begin(); rw.unlock(); m.begin(); } void h() { rw.lockForWrite(); m.begin(); rw.unlock(); m.begin(); } void i() { rw.lockForWrite(); rw.unlock(); rw.lockForRead(); $m.begin(); { $m.begin(); } rw.unlock(); } void j() { rw.tryLockForRead(); m.begin(); } };", nullptr, "QList QVector QLinkedList QStack QQueue QMap QMultiMap QHash QMultiHash QSet QString QByteArray QJsonObject", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct @ { int operator[](int); int operator+(int); int operator()(int); };\nstruct T { Lock *l; @ m; void f(T &o, T *p, @ arg) { m[0]; QReadLocker r(l); $m[0]; arg[1]; $o.m[2]; int n = $p->m[3] + $m[n]; m + 1; m(1); if ($m[1]) { $m[2]; } r.unlock(); m[4]; } void g() { m[0]; } void h() { QWriteLocker w(l); m[0]; } };", nullptr, "QList QVector QLinkedList QStack QQueue QMap QMultiMap QHash QMultiHash QSet QString QByteArray QJsonObject", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void @(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QMap { int find(); };\nstruct T { Lock *l; QMap m; void f() { QReadLocker r(l); r.@(); $m.find(); } void g(QReadLocker &r) { r.@(); { QReadLocker s(l); s.@(); $m.find(); } } };", nullptr, "!unlock", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nnamespace n { struct @ { void unlock(); }; }\nstruct QMap { int find(); };\nstruct T { QReadWriteLock rw; QMap m; void f(n::@ &u) { rw.lockForRead(); u.unlock(); $m.find(); } };", nullptr, "!QReadLocker QReadWriteLock QBasicReadWriteLock", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QHash { int @(); };\nQReadWriteLock rw; QReadLocker glob(nullptr); bool b = (rw.lockForRead(), true); struct T { QReadLocker r; QHash m; int n = (rw.lockForRead(), 1); T() : r(nullptr) { m.@(); } void f() { rw.lockForRead(); $m.@(); } };", nullptr, "find begin end", "Possibly detaching a member while inside of a read-only mutex scope"},
    {"unused-result-check", "struct QMetaType { constexpr QMetaType() : v(1) {} int v; constexpr int @() const { return v; } int other() const; void nothing() const; int change(); static int stat(); bool ok() const; };\nstruct H { QMetaType a; int g = a.@(); int k{a.@()}; int arr[QMetaType().@()]; int z; H() : z(a.@()) { a.$@(); } };\nint dflt(int x = QMetaType().@()); enum E { En = QMetaType().@() }; static_assert(QMetaType().@()); static_assert(QMetaType().@() == 1, \"\"); int glob = QMetaType().@(); auto bound = [x = QMetaType().@()] { };\nint test(QMetaType &o, QMetaType *p, int n) { o.$@(); p->$@(); if (o.@()) n = 1; while (o.@()) n = 2; do n = 3; while (o.@()); switch (o.@()) { case 1: o.$@(); break; case QMetaType().@() + 1: break; default: o.$@(); } for (int i = o.@(); i < o.@(); ++i) { o.$@(); } for (; o.@();) n = 4; if (int q = o.@()) n = q; int x = o.@(), y(p->@()); n = o.@(); (void)o.@(); n = n ? o.@() : 2; n = (o.@(), 5); dflt(o.@()); new int[o.@()]; auto f = [&] { o.$@(); return o.@(); }; { p->$@(); } l: o.$@(); o.change(); o.nothing(); o.stat(); throw o.@(); return o.@(); }", nullptr, "!registerHelper", "Result of const member function is not used."},
    {"unused-result-check", "struct @ { constexpr @() : v(1) {} int v; constexpr int registerHelper() const { return v; } int other() const; void nothing() const; int change(); static int stat(); bool ok() const; };\nstruct H { @ a; int g = a.registerHelper(); int k{a.registerHelper()}; int arr[@().registerHelper()]; int z; H() : z(a.registerHelper()) { a.$registerHelper(); } };\nint dflt(int x = @().registerHelper()); enum E { En = @().registerHelper() }; static_assert(@().registerHelper()); static_assert(@().registerHelper() == 1, \"\"); int glob = @().registerHelper(); auto bound = [x = @().registerHelper()] { };\nint test(@ &o, @ *p, int n) { o.$registerHelper(); p->$registerHelper(); if (o.registerHelper()) n = 1; while (o.registerHelper()) n = 2; do n = 3; while (o.registerHelper()); switch (o.registerHelper()) { case 1: o.$registerHelper(); break; case @().registerHelper() + 1: break; default: o.$registerHelper(); } for (int i = o.registerHelper(); i < o.registerHelper(); ++i) { o.$registerHelper(); } for (; o.registerHelper();) n = 4; if (int q = o.registerHelper()) n = q; int x = o.registerHelper(), y(p->registerHelper()); n = o.registerHelper(); (void)o.registerHelper(); n = n ? o.registerHelper() : 2; n = (o.registerHelper(), 5); dflt(o.registerHelper()); new int[o.registerHelper()]; auto f = [&] { o.$registerHelper(); return o.registerHelper(); }; { p->$registerHelper(); } l: o.$registerHelper(); o.change(); o.nothing(); o.stat(); throw o.registerHelper(); return o.registerHelper(); }", nullptr, "!QMetaType", "Result of const member function is not used."},
    {"unused-result-check", "struct @ { constexpr @() {} constexpr bool registerHelper() const { return true; } };\nstatic_assert(@().registerHelper()); struct H { bool b = @().registerHelper(); @ m; bool c{m.registerHelper()}; int w : @().registerHelper(); H(const H &o) : b(o.m.registerHelper()) {} bool d() const { return m.registerHelper(); } void e() const { m.$registerHelper(); this->m.$registerHelper(); } };\ntemplate <typename T> void tmpl(T t, @ &o) { o.$registerHelper(); T u = o.registerHelper(); }", nullptr, "!QMetaType", "Result of const member function is not used."},
    {"readlock-detaching", "struct Lock; struct QReadWriteLock { void lockForRead(); void lockForWrite(); bool tryLockForRead(); void unlock(); }; struct QReadLocker { QReadLocker(Lock *); ~QReadLocker(); void unlock(); void relock(); }; struct QWriteLocker { QWriteLocker(Lock *); };\nstruct QHash { int @(); }; bool cond();\nstruct T { QReadWriteLock rw, rw2; Lock *l; QHash m; void f() { if (cond()) { QReadLocker r(l); $m.@(); } else { m.@(); } m.@(); } void g() { for (;;) { QReadLocker r(l); $m.@(); break; } m.@(); } void h() { auto la = [this] { QReadLocker r(l); $m.@(); }; m.@(); } void i() { switch (int n = 1) { case 1: { rw.lockForRead(); $m.@(); rw.unlock(); m.@(); break; } default: m.@(); } } int j() { rw.lockForRead(); int n = $m.@(); rw.unlock(); return n; } };\nvoid free(T &t) { t.rw.lockForRead(); $t.m.@(); t.rw.unlock(); t.m.@(); } template <typename X> void tm(T &t, Lock *l, X x) { QReadLocker r(l); $t.m.@(); }", nullptr, "find begin end", "Possibly detaching a member while inside of a read-only mutex scope"},
    // ---- r7.py
    {"strict-iterators", "struct @ { struct iterator {}; struct const_iterator { const_iterator(iterator); const_iterator(int *); }; void insert(const_iterator); void insert(iterator, int); };\nvoid test(@ &c, @::iterator i, @::const_iterator ci) { c.insert($i); c.insert(ci); c.insert(i, 1); }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QVector QHash QMultiHash QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct @ { struct iterator {}; struct const_iterator { const_iterator(iterator); const_iterator(int *); }; void erase(const_iterator); void erase(iterator, int); };\nvoid test(@ &c, @::iterator i, @::const_iterator ci) { c.erase($i); c.erase(ci); c.erase(i, 1); }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QVector QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct @ { struct iterator {}; struct const_iterator { const_iterator(iterator); const_iterator(int *); }; void emplace(const_iterator); void emplace(iterator, int); };\nvoid test(@ &c, @::iterator i, @::const_iterator ci) { c.emplace($i); c.emplace(ci); c.emplace(i, 1); }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct @ { struct iterator {}; struct const_iterator { const_iterator(iterator); const_iterator(int *); }; void find(const_iterator); void find(iterator, int); };\nvoid test(@ &c, @::iterator i, @::const_iterator ci) { c.find($i); c.find(ci); c.find(i, 1); }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct @ { struct iterator {}; struct const_iterator { const_iterator(iterator); const_iterator(int *); }; void replace(const_iterator); void replace(iterator, int); };\nvoid test(@ &c, @::iterator i, @::const_iterator ci) { c.replace($i); c.replace(ci); c.replace(i, 1); }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QList { struct iterator {}; struct const_iterator { const_iterator(iterator); }; void @(const_iterator); };\nstruct Sub { QList c; void f(QList::iterator i) { c.@($i); } }; void test(QList &c, QList *p, QList::iterator i) { c.@($i); if (p) { p->@($i); } }", nullptr, "!emplace erase insert", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QMap { struct iterator {}; struct const_iterator { const_iterator(iterator); }; void @(const_iterator); };\nstruct Sub { QMap c; void f(QMap::iterator i) { c.@($i); } }; void test(QMap &c, QMap *p, QMap::iterator i) { c.@($i); if (p) { p->@($i); } }", nullptr, "!insert erase", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QHash { struct iterator {}; struct const_iterator { const_iterator(iterator); }; void @(const_iterator); };\nstruct Sub { QHash c; void f(QHash::iterator i) { c.@($i); } }; void test(QHash &c, QHash *p, QHash::iterator i) { c.@($i); if (p) { p->@($i); } }", nullptr, "!erase", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QSet { struct iterator {}; struct const_iterator { const_iterator(iterator); }; void @(const_iterator); };\nstruct Sub { QSet c; void f(QSet::iterator i) { c.@($i); } }; void test(QSet &c, QSet *p, QSet::iterator i) { c.@($i); if (p) { p->@($i); } }", nullptr, "!erase insert", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct @ { typedef int *iterator; typedef const int *const_iterator; iterator begin(); const_iterator constBegin() const; void erase(iterator); void f(const_iterator); iterator m; };\nvoid test(@ &v, @::iterator i, int *q) { @::const_iterator a = $i; @::const_iterator b = $v.begin(); @::const_iterator c = v.constBegin(); @::iterator d = v.begin(); @::const_iterator e = q; const int *g = $i; v.f($i); v.erase(i); a = $i; if (a == $i) a = c; @::const_iterator h = v.m; while (i != v.begin()) ++i; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QVector { typedef int *@; typedef const int *const_iterator; @ begin(); };\nvoid test(QVector &v, QVector::@ i) { QVector::const_iterator a = $i; QVector::const_iterator b = $v.begin(); }", nullptr, "iterator", "Mixing iterators with const_iterators"},
    {"strict-iterators", "struct QMap { struct const_iterator {}; struct @ { bool operator==(const const_iterator &) const; bool operator!=(const_iterator *) const; bool operator()(const const_iterator &, int) const; bool operator+(int) const; bool operator<(const @ &) const; }; };\nbool test(QMap::@ i, QMap::const_iterator c, QMap::@ *p) { bool b = $i == c; b = $*p == c; b = $i != &c; b = i(c, 1); b = i + 1; b = i < i; return b; }", nullptr, "iterator", "Mixing iterators with const_iterators"},
    {"wrong-qglobalstatic", "template <typename T> struct Holder { T *p; }; template <typename T> struct @ { @(); @(int); ~@(); }; struct Triv { int i; }; struct Ctor { Ctor(); }; struct Dtor { ~Dtor(); };\nstruct Q1 { typedef Triv QGS_Type; }; struct Q2 { typedef Ctor QGS_Type; }; struct Q3 { int n; typedef Dtor Other; typedef int QGS_Type; }; struct Q4 { typedef Dtor Other; typedef Dtor QGS_Type; }; struct Q5 { typedef Dtor A; typedef Triv QGS_Type; };\nstatic @<Holder<Q1>> $x; @<Holder<Q2>> a; @<Holder<Q3>> $b; @<Holder<Q4>> c(2); @<Holder<Q5>> $d(1); void fn() { static @<Holder<Q1>> $l; static @<Holder<Q4>> m; }", nullptr, "QGlobalStatic QGlobalStaticCompoundStmt", "Don't use Q_GLOBAL_STATIC with "},
    {"connect-3arg-lambda", "struct QObject {}; struct QTimer : QObject { template <typename F> static void singleShot(int @, F slot) {} template <typename F> static void singleShot(int @, int timerType, F slot) {} template <typename F> static void singleShot(int interval, const QObject *receiver, F slot) {} void start(int interval, int slot); }; struct Mine { template <typename F> static void singleShot(int interval, F slot) {} };\nvoid t(QTimer *q, const QObject *o, int n) { $QTimer::singleShot(1, [n] {}); $QTimer::singleShot(1, 2, [n] {}); QTimer::singleShot(1, o, [n] {}); Mine::singleShot(1, [n] {}); q->start(1, 2); if (n) $q->singleShot(n, [] {}); }", nullptr, "interval", "Pass a context object as "},
    {"connect-3arg-lambda", "struct QObject {}; struct QTimer : QObject { template <typename F> static void singleShot(int interval, F @) {} template <typename F> static void singleShot(int interval, int timerType, F @) {} template <typename F> static void singleShot(int interval, const QObject *receiver, F slot) {} void start(int interval, int slot); }; struct Mine { template <typename F> static void singleShot(int interval, F slot) {} };\nvoid t(QTimer *q, const QObject *o, int n) { $QTimer::singleShot(1, [n] {}); $QTimer::singleShot(1, 2, [n] {}); QTimer::singleShot(1, o, [n] {}); Mine::singleShot(1, [n] {}); q->start(1, 2); if (n) $q->singleShot(n, [] {}); }", nullptr, "slot", "Pass a context object as "},
    {"connect-3arg-lambda", "struct QObject {}; struct QTimer : QObject { template <typename F> static void singleShot(int aa, F slot) {} template <typename F> static void singleShot(int interval, int @, F slot) {} template <typename F> static void singleShot(int interval, const QObject *receiver, F slot) {} void start(int interval, int slot); }; struct Mine { template <typename F> static void singleShot(int interval, F slot) {} };\nvoid t(QTimer *q, const QObject *o, int n) { QTimer::singleShot(1, [n] {}); $QTimer::singleShot(1, 2, [n] {}); QTimer::singleShot(1, o, [n] {}); Mine::singleShot(1, [n] {}); q->start(1, 2); if (n) q->singleShot(n, [] {}); }", nullptr, "timerType", "Pass a context object as "},
    {"connect-3arg-lambda", "struct QString { QString(const char *); }; struct QKeySequence { QKeySequence(int = 0); }; struct QObject {}; struct QMenu { template <typename F> void @(const QString &text, F slot, const QKeySequence &shortcut) {} template <typename F> void @(const QString &text, const QObject *object, F slot, const QKeySequence &shortcut = 0) {} void @(const QString &text) {} }; struct Mine { template <typename F> void addAction(const QString &text, F slot, const QKeySequence &shortcut = 0) {} };\nvoid t(QMenu *q, QMenu &r, const QObject *o, Mine m) { $q->@(\"a\", [] {}, 1); q->@(\"a\", o, [] {}); q->@(\"a\"); m.addAction(\"a\", [] {}); $r.@(\"b\", [o] {}, 0); }", nullptr, "addAction", "Pass a context object as 2nd addAction parameter"},
    {"connect-3arg-lambda", "struct QString { QString(const char *); }; struct QKeySequence { QKeySequence(int = 0); }; struct QObject {}; struct QMenu { template <typename F> void addAction(const QString &@, F slot, const QKeySequence &shortcut) {} template <typename F> void addAction(const QString &text, const QObject *object, F slot, const QKeySequence &shortcut = 0) {} void addAction(const QString &text) {} }; struct Mine { template <typename F> void addAction(const QString &text, F slot, const QKeySequence &shortcut = 0) {} };\nvoid t(QMenu *q, QMenu &r, const QObject *o, Mine m) { $q->addAction(\"a\", [] {}, 1); q->addAction(\"a\", o, [] {}); q->addAction(\"a\"); m.addAction(\"a\", [] {}); $r.addAction(\"b\", [o] {}, 0); }", nullptr, "text", "Pass a context object as 2nd addAction parameter"},
    {"connect-3arg-lambda", "struct QString { QString(const char *); }; struct QKeySequence { QKeySequence(int = 0); }; struct QObject {}; struct QMenu { template <typename F> void addAction(const QString &text, F @, const QKeySequence &shortcut) {} template <typename F> void addAction(const QString &text, const QObject *object, F slot, const QKeySequence &shortcut = 0) {} void addAction(const QString &text) {} }; struct Mine { template <typename F> void addAction(const QString &text, F slot, const QKeySequence &shortcut = 0) {} };\nvoid t(QMenu *q, QMenu &r, const QObject *o, Mine m) { $q->addAction(\"a\", [] {}, 1); q->addAction(\"a\", o, [] {}); q->addAction(\"a\"); m.addAction(\"a\", [] {}); $r.addAction(\"b\", [o] {}, 0); }", nullptr, "slot", "Pass a context object as 2nd addAction parameter"},
    {"connect-3arg-lambda", "struct QString { QString(const char *); }; struct QKeySequence { QKeySequence(int = 0); }; struct QObject {}; struct QMenu { template <typename F> void addAction(const QString &text, F slot, const QKeySequence &@) {} template <typename F> void addAction(const QString &text, const QObject *object, F slot, const QKeySequence &shortcut = 0) {} void addAction(const QString &text) {} }; struct Mine { template <typename F> void addAction(const QString &text, F slot, const QKeySequence &shortcut = 0) {} };\nvoid t(QMenu *q, QMenu &r, const QObject *o, Mine m) { $q->addAction(\"a\", [] {}, 1); q->addAction(\"a\", o, [] {}); q->addAction(\"a\"); m.addAction(\"a\", [] {}); $r.addAction(\"b\", [o] {}, 0); }", nullptr, "shortcut", "Pass a context object as 2nd addAction parameter"},
    {"connect-3arg-lambda", "struct QString { QString(const char *); }; struct @ { template <typename A> void addAction(const QString &text, A args) {} template <typename A> void addAction(const QString &text, A args, int other) {} template <typename A, typename B> void addAction(int t, A args, B args2) {} void addAction(int one, int two); };\nvoid t(@ *w, @ &r) { $w->addAction(\"a\", [] {}); w->addAction(\"a\", [] {}, 1); w->addAction(1, [] {}, 2); w->addAction(1, 2); $r.addAction(\"b\", 3); }", nullptr, "QWidget", "Pass a context object as 2nd addAction parameter"},
    {"lambda-in-connect", "struct QObject { template <typename F> static void connect(const QObject *, int, F) {} template <typename F> static void connect(const QObject *, int, const QObject *, F, int = 0) {} static void @(int); }; int glob;\nvoid t(QObject *o, QObject *p, QObject st, int &r, int n) { int a = 1, b = 2; QObject s2; QObject::connect(o, 1, [&$a, b, &n] { a = b; n = b; }); QObject::connect(o, 1, p, [&r, &$b] { r = b; }); QObject::connect(o, 1, &s2, [&a] { a = 2; }); QObject::connect(&s2, 1, p, [&a] { a = 2; }); QObject::connect(&st, 1, [&a] { a = 3; }); QObject::connect(o, 1, [=, &$a] { a = b; }); QObject::connect(o, 1, p, [&$a, n] { a = n; }, 2); { for (int i = 0; i < n; ++i) QObject::connect(o, 1, [&$i] { ++i; }); } QObject::connect(o, 1, p, [&o, p] { o = nullptr; }); QObject::connect(o, 1, p, [&p, o] { p = nullptr; }); }", nullptr, "?connect", "captured local variable by reference"},
    {"returning-data-from-temporary", "struct QByteArray { QByteArray(); QByteArray(const char *); QByteArray(const QByteArray &); ~QByteArray(); const char *@() const; char *data(); operator const char *() const; QByteArray left(int) const; };\nconst char *t1(int n, QByteArray v) { if (n) return $QByteArray(\"x\").@(); switch (n) { case 1: return $v.@(); default: return $v.left(1).@(); } }\nconst char *t2(const QByteArray *p, QByteArray v[]) { if (p) return p->@(); else return v[1].@(); }\nvoid t3(int n) { for (const char *c = $QByteArray(\"y\").@(); n; --n) ; static const char *d = $QByteArray().@(); char *e = nullptr; const char *f = nullptr, *g = $QByteArray(\"z\").left(2).@(); const char *const h = QByteArray().@(); auto l = [] { return $QByteArray(\"w\").@(); }; }\nstatic QByteArray glob; const char *t4() { return $glob.@(); }\nconst char *file = QByteArray(\"v\").@();", nullptr, "constData", "Returning data of temporary QByteArray"},
    {"post-event", "struct QEvent { QEvent(int); ~QEvent(); }; struct QObject {}; struct QCoreApplication { static void postEvent(QObject *, QEvent *, int = 0); static void postEvent(QEvent *); }; struct @ { static void postEvent(QObject *, QEvent *); };\nvoid t(QObject *o, bool b) { QEvent e(1), f(2); if (b) { $QCoreApplication::postEvent(o, &e); } else $QCoreApplication::postEvent(o, &f, 2); QCoreApplication::postEvent(&e); auto l = [o] { QEvent g(3); $QCoreApplication::postEvent(o, &g); }; auto *h = new QEvent(4); QCoreApplication::postEvent(o, h, 1); for (;;) { QEvent i(5); $QCoreApplication::postEvent(o, &i); } @::postEvent(o, &e); }", nullptr, "?QCoreApplication", "Events passed to postEvent should be heap allocated"},
    {"non-pod-global-static", "struct @ { @(); @(int); ~@(); }; template <typename T> struct Tm { Tm(); ~Tm(); T t; }; struct Pair { int a; @ b; };\n$static @ a1; $static @ a2(2); $static @ a3{3}; $static @ a4 = @(4); $static @ arr[2] = {@(1), @(2)}; static const @ &ref = a1; $static Tm<int> tm; namespace { $@ an; $const @ ac; namespace in { $@ ai(2); } } struct S { static @ m; @ n; inline static @ o; }; @ S::m; static int i = 1; inline @ il; static @ *ptr; $static const @ k; void f() { static @ loc; } auto lam = [] { static @ z; };", nullptr, "?Holder AFUNC QLoggingCategory QThreadStorage QQmlModuleRegistration", "non-POD static"},
    // ---- r8.py
    {"temporary-iterator", "struct It { int &operator*() const; int *operator->() const; It &operator++(); It operator+(int) const; int value() const; bool operator!=(const It &) const; }; struct QList { QList(); ~QList(); It @() const; It other() const; }; QList get(); QList &ref(); struct M { QList l() const; QList m; }; void use(int); void it(It);\nvoid test(M m, M *p, bool b) { use(*get().@()); int i = *get().@(); i = get().@().value(); it($get().@()); It k = $get().@(); for (It x = $m.l().@(); b; ++x) {} if (b) k = $p->l().@(); else k = m.m.@(); while ($get().@() != k) {} k = ref().@(); k = p->m.@(); it(get().other()); int j = *(get().@()); auto l = [] { return $get().@(); }; b ? it($get().@()) : it(k); QList own; it(own.@()); }", nullptr, "begin end constBegin constEnd cbegin cend", "Don't call QList::@() on temporary"},
    {"qvariant-template-instantiation", "struct QVariant { template <typename T> T value() const; template <typename T> bool canConvert() const; }; class QString {}; struct QRect {}; class QSize; class QSizeF {}; enum class E { A };\nvoid test(const QVariant &v, QVariant w[], int n) { $v.value<int>(); $v.value<unsigned>(); $v.value<long long>(); $w[1].value<float>(); $w[n].value<QSizeF>(); v.value<QRect>(); v.value<E>(); v.value<const char *>(); v.value<QString *>(); v.canConvert<int>(); v.value<void>(); switch (n) { case 1: $v.value<bool>(); } auto @ = [&v] { return $v.value<QString>(); }; $v.value<char>(); }", nullptr, "?l", "Use QVariant::to"},
    {"use-arrow-operator-instead-of-data", "struct T { void f() const; T *g() const; int i; }; template <typename X> struct @ { X *data() const; X *operator->() const; }; template <typename X> struct Mine { X *data() const; };\n@<T> get(); struct H { @<T> m; const @<T> &r() const; static @<T> s; void own() { $m.data()->f(); $this->m.data()->f(); $s.data()->f(); } }; void test(@<T> p, const @<H> &h, Mine<@<T>> n, @<T> a[]) { $p.data()->g()->f(); p->g()->f(); $h.data()->r(); $a[1].data()->f(); if (p.data()) $p.data()->f(); for (; p.data()->i;) ; auto l = [p] { $p.data()->f(); }; $H::s.data()->f(); const_cast<T *>(p.data())->f(); ((T *)p.data())->f(); (static_cast<T *>(p.data()))->g()->f(); ($p.data())->f(); $get().data()->f(); $get().data()->g()->g()->f(); T &t = *p.data(); delete p.data(); }", nullptr, "QScopedPointer QPointer QSharedPointer QSharedDataPointer", "Use operator -> directly instead of @::data()->"},
    {"qdeleteall", "template <typename T> void qDeleteAll(const T &); template <typename T> void qDeleteAll(T, T); template <typename T> T pass(T); struct @ { int values() const; int keys() const; int *begin(); int *end(); int size() const; }; const @ &cr(); struct S { @ m; void f() { $qDeleteAll(m.values()); $qDeleteAll(this->m.keys()); } }; struct Own { int values() const; };\nvoid test(@ h, @ &r, @ *p, bool b) { $qDeleteAll((h.values())); qDeleteAll(h.size()); qDeleteAll(h); qDeleteAll(h.begin(), h.end()); int v = h.values(); qDeleteAll(v); qDeleteAll(pass(h.keys())); if (b) { $qDeleteAll(h.keys()); } else $qDeleteAll(h.values()); for (;;) $qDeleteAll(h.values() + 1); auto l = [h] { $qDeleteAll(h.values()); }; $qDeleteAll(r.keys()); $qDeleteAll(p->values()); S s; $qDeleteAll(s.m.values()); const @ c = h; $qDeleteAll(c.keys()); Own o; qDeleteAll(o.values()); $qDeleteAll(cr().values()); }", nullptr, "QSet QMap QHash QMultiHash QMultiMap", "qDeleteAll() is being used on an unnecessary temporary container created by @::"},
    {"returning-void-expression", "void v(); int i(); template <typename T> void t(T); struct S { void m() const; ~S() { if (i()) return; } operator int(); void n() { $return m(); } int o() { return i(); } static void s() { $return t(1); } }; namespace n { void f(S *p) { if (i()) $return p->m(); switch (i()) { case 1: $return p->~S(); default: return; } } } void @(bool b) { while (b) { $return b ? v() : t(2); } do { $return (v(), v()); } while (b); } int x(int n) { { return n; } } void y() { $return throw 1; }", nullptr, "?v i t T m s n o f S p x y b", "Returning a void expression"},
    {"tr-non-literal", "struct QString { QString(const char *); }; struct QObject { static QString tr(const char *, const char * = nullptr, int = -1); }; template <typename T> struct Tm : QObject { QString f(const char *s) { return $QObject::tr(s); } }; struct A : QObject { QString m(const char *p, bool b) { if (b) return $tr(p); return tr(\"x\"); } QString n(int i) { const char *t[] = {\"a\", \"b\"}; return $tr(t[i]); } QString o() { static const char c[] = \"z\"; $tr(c, \"lit\"); auto l = [] { return $tr(nullptr); }; return tr(\"a\", nullptr, 2); } QString @(const char *); };\nvoid test(A &a, const char *s) { a.@(s); $a.tr(s); $A::tr(s); a.tr(\"\"); }", nullptr, "?tr m n o f l", "tr() without a literal string"},
    // ---- r9.py
    {"returning-data-from-temporary", "struct QByteArray { QByteArray(); ~QByteArray(); const char *@() const; }; QByteArray get(); struct P { int a, b; }; P pair();\nvoid test() { struct Loc { const char *c; }; typedef int Ty; static_assert(true, \"\"); auto [x, y] = pair(); const char *c = $get().@(); enum { E1 }; extern const char *e; }", nullptr, "data constData", "Returning data of temporary QByteArray"},
    {"global-const-char-pointer", "inline const char *const ic = \"\"; inline char *const id = nullptr; extern const char *const ee = \"\"; extern const char *ef = \"\"; inline int fn() { static const char *loc = \"\"; const char *other = loc; return 0; } template <typename T> struct Tm { static char *m; }; template <typename T> char *Tm<T>::m = nullptr; $char *@; $inline char *ig; namespace n { $char *h, *const j = nullptr; }", nullptr, "?ic id ee ef fn loc other T Tm m ig n h j", "non const global char *"},
    {"strict-iterators", "typedef int *iterator; iterator begin(); struct @ { typedef const int *const_iterator; };\nvoid test(iterator i) { @::const_iterator a = $begin(); a = $i; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"strict-iterators", "typedef const int *const_iterator; struct @ { typedef int *iterator; iterator begin(); };\nvoid test(@ v, @::iterator i) { const_iterator a = $v.begin(); a = $i; }", nullptr, "QListSpecialMethods QListSpecialMethodsBase QList QVector QMap QHash QMultiMap QMultiHash QSet QStack QQueue QString QStringRef QByteArray QJsonArray QJsonObject QLinkedList", "Mixing iterators with const_iterators"},
    {"signal-with-return-value", "#define signals public\n#define slots\n#define Q_SCRIPTABLE\nstruct @ { virtual ~@(); }; struct A : @ { signals: Q_SCRIPTABLE int a(); $int b(); Q_SCRIPTABLE void c(int &); $void d(int &, const int &); $int e() { return 1; } public slots: Q_SCRIPTABLE int f(); int g(int &); };\nint A::b() { return 1; } void A::d(int &, const int &) {} int A::f() { return 2; } struct B : A { int b(); };", nullptr, "QObject"},
};
