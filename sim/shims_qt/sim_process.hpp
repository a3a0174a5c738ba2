#pragma once
#include <QObject>
#include <QString>
#include <QStringList>

// Stand-in for another program: the simulator decides what becomes of it.
class SimProcess : public QObject {
	Q_OBJECT
public:
	enum ProcessError { FailedToStart, Crashed, Timedout, WriteError, ReadError, UnknownError };
	enum ProcessState { NotRunning, Starting, Running };
	explicit SimProcess(QObject* parent = nullptr) : QObject(parent) {}
	void setProgram(QString const& p) { program_ = p; }
	void setArguments(QStringList const& a) { arguments_ = a; }
	QString program() const { return program_; }
	QStringList arguments() const { return arguments_; }
	void start();
	void start(QString const& p, QStringList const& a) { program_ = p; arguments_ = a; start(); }
	void fail() { emit errorOccurred(FailedToStart); }
signals:
	void errorOccurred(SimProcess::ProcessError error);
private:
	QString program_;
	QStringList arguments_;
};
