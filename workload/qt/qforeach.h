#define foreach Q_FOREACH
