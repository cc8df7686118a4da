#include <QtCore/QString>

#if defined(Q_OS_WINDOWS) // Warning, should be Q_OS_WIN
#endif
