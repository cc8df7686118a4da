#include <QtCore/QTextStream>
#include <QtCore/QCalendar>
#include <QtCore/QDateTime>
#include <QtCore/QDir>
#include <QtCore/QHash>
#include <QtCore/QLinkedList>
#include <QtCore/QMap>
#include <QtCore/QProcess>
#include <QtCore/QResource>
#include <QtCore/QSet>
#include <QtCore/QSignalMapper>
#include <QtCore/QTimeLine>
#include <QtWidgets/QButtonGroup>
#include <QtWidgets/QComboBox>
#include <QtWidgets/QDirModel>
#include <QtWidgets/QDockWidget>
#include <QtWidgets/QGraphicsView>
#include <QtWidgets/QMacCocoaViewContainer>
#include <QtWidgets/QMacNativeWidget>
#include <QtWidgets/QSplashScreen>
#include <QtWidgets/QStyle>
#include <QtWidgets/QTextBrowser>
#include <QtWidgets/QWizard>

class my_Class
{
public:
    QDir m_dir;
    QDir *m_dir_bis;
    QVariant m_variant;
};
#define MYSTRING "myDirPath"

void test()
{
    QDir dir;


    QDir d;
    QFileInfo fi;
    d = fi.absolutePath();

    my_Class test_class;


    my_Class* test_class_bis = new my_Class;



    QDir dir2;

    dir2 = dir;

    QDir dir3;


    QDir dir4;
    char *pathName = "myStuff";


    QDir dir5;
    bool cond = true;


    QDir dir6;


    QDir *dir7 = new QDir("apath");



    QDir::addResourceSearchPath("somePath1");
    dir6.addResourceSearchPath("somePath2");

    QMap<QString, QString> m;
    m.insertMulti("foo", "bar");
    QList<QString> m_keys= m.uniqueKeys();
    QList<QString> m_list= m.values();
    QMap<QString, QString> mm;
    m.unite(mm);

    QProcess pp;
    pp.start("stringContainingACommandWithArguments");






    uint matchtype = 4;

        matchtype = 0;

    QTextStream out;
    out << "blabla" << endl;


    QString a_string = "eeoaaoii";
    QString sep = "o";
    QStringList my_list =  a_string.split(sep, QString::KeepEmptyParts);
    QStringList my_list2 =  a_string.split(sep, QString::SplitBehavior::KeepEmptyParts);
    QString::SplitBehavior behavior = QString::KeepEmptyParts;

    QSet<QString> my_set;
    QSet<QString>::iterator it_set = my_set.begin();
    QSet<QString>::const_iterator cit_set = my_set.cbegin();





    ++it_set; //ok











    QSet<int> s;
    s << 1 << 17 << 61 << 127 << 911;





    int my_int = 2;
    QWidget* my_qwidget;
    QObject* my_qobject;
    QSignalMapper sigMap;
    sigMap.mapped(1);
    sigMap.mapped(my_int);
    sigMap.mapped("astring");
    sigMap.mapped(a_string);



    QHash<QString, QString> my_hash;
    QHash<QString, QString>::iterator it_hash = my_hash.begin();
    QHash<QString, QString>::const_iterator cit_hash = my_hash.cbegin();

    it_hash + 1;



    ++it_hash; //ok





    QHashIterator<QString, QString> ih(my_hash);





    QLinkedList<QString> linkList;








    QDate myDate;
    QDate *myOtherDate = new QDate();






    QVariant var1;
    QVariant *var3;
    QVariant var2;








}

void function1(QLinkedList<QString> arg) {};
QLinkedList<QString> function2() { return {}; };

class aclass
{
public:
     QLinkedList<QString> m_linkList;
     void m_function1(QLinkedList<QString> arg) {};
};

namespace Qt {
    void test_1() {
        uint matchtype = 4;

            matchtype = 0;
        QTextStream out;



        QString a_string = "eeoaaoii";
        QString sep = "o";
        QStringList my_list =  a_string.split(sep, QString::KeepEmptyParts);
        QString::SplitBehavior behavior = QString::KeepEmptyParts;

    }
}

void test_widgets()
{
    QWizard wizard;


    QButtonGroup buttonGroup;
    buttonGroup.buttonClicked(1);




    QComboBox combobox;

    QString astring = "asdf";
    combobox.currentIndexChanged(astring);
    combobox.activated(astring);



    QMacNativeWidget *native = NULL;

    QWidget *a_widget = NULL;




    QTextBrowser browser;
    QString a_string = "aaa";

    QUrl a_url;


    QDockWidget dock;




    QGraphicsView graphview;




    QStyle *style = NULL;





}


void func_native (QMacNativeWidget *native){}
