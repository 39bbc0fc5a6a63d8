// The graphical client without its windows: reads operations on standard input, one per line, does
// them through cards_wrapper as the windows do, and prints what the windows would be told.
#include "cards_wrapper.h"
#include "cards_event_handler.h"
#include "cards_log.h"

#include <condition_variable>
#include <cstdio>
#include <iostream>
#include <mutex>
#include <unistd.h>

// Lines of ours start with @@: the library prints as well.
#define say(fmt, ...) printf("\n@@ " fmt "\n", ##__VA_ARGS__)

// shown as a dialog otherwise
FL_EXPORT void fl_alert(const char* fmt, ...) { say("alert %s", fmt); }

using namespace cards;

static std::mutex mx;
static std::condition_variable cv;
static int nSync, nRefresh, nJobs, nInfo;
static int worst, least, nProgress;

class window : public cards_event_handler
{
    std::string m_name;
public:
    explicit window(const char* n): m_name(n) {}
protected:
    virtual void OnLogMessage(const std::string& m) { say("%s log %s", m_name.c_str(), m.substr(0, m.find('\n')).c_str()); }
    virtual void OnSyncFinished(const CEH_RC rc) { tell("sync", rc, nSync); }
    virtual void OnDoJobListFinished(const CEH_RC rc) { tell("done", rc, nJobs); }
    virtual void OnRefreshPackageFinished(const CEH_RC rc)
    {
        // the windows draw the jobs whenever they like
        for (cards::cache* p : cards_wrapper::instance()->getJobList()) say("%s draws %s", m_name.c_str(), p->name().c_str());
        tell("refreshed", rc, nRefresh);
    }
    virtual void OnJobListChange(const CEH_RC rc)
    {
        std::lock_guard<std::mutex> l(mx);
        say("%s jobs %d busy %d", m_name.c_str(), (int)rc, (int)cards_wrapper::instance()->isJobRunning());
    }
    virtual void OnProgressInfo(int percent)
    {
        std::lock_guard<std::mutex> l(mx);
        if (percent > worst) worst = percent;
        if (percent < least) least = percent;
        ++nProgress;
    }
    virtual void OnPackageInfo(cards::cache& p)
    {
        std::lock_guard<std::mutex> l(mx);
        say("%s info %s|%s|%s|%d", m_name.c_str(), p.name().c_str(), p.version().c_str(), p.collection().c_str(), (int)p.status());
        ++nInfo;
        cv.notify_all();
    }
private:
    void tell(const char* what, CEH_RC rc, int& n)
    {
        std::lock_guard<std::mutex> l(mx);
        say("%s %s %d", m_name.c_str(), what, (int)rc);
        ++n;
        cv.notify_all();
    }
};

static void waitFor(int& n, int v)
{
    {
        std::unique_lock<std::mutex> l(mx);
        while (n < v) cv.wait(l);
    }
    for (int quiet = 0; quiet < 3;)
    {
        if (cards_wrapper::instance()->isJobRunning()) quiet = 0;
        else ++quiet;
        usleep(200);
    }
}

int main()
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    cards_wrapper* w = cards_wrapper::instance();
    window a("a"), b("b");
    w->subscribeToEvents(&a);
    cards_logger::instance()->subscribe(&a);
    int nwin = 1;
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string op = line.substr(0, line.find(' '));
        std::string arg = line.find(' ') == std::string::npos ? "" : line.substr(line.find(' ') + 1);
        say("> %s", line.c_str());
        if (op == "refresh") { int v = nRefresh + nwin; w->refreshPackageList(); waitFor(nRefresh, v); }
        else if (op == "hide") rename(arg.c_str(), (arg + ".hidden").c_str());
        else if (op == "show") rename((arg + ".hidden").c_str(), arg.c_str());
        else if (op == "do" || op == "do2")
        {
            int v = nJobs + nwin;
            nProgress = worst = least = 0;
            w->doJobList();
            // not while one runs
            if (op == "do2") { w->doJobList(); w->refreshPackageList(); w->sync(); }
            waitFor(nJobs, v);
            say("progress %d %d %d", nProgress, least, worst);
        }
        else if (op == "sync")
        {
            int v = nSync + nwin, r = nRefresh;
            w->sync();
            waitFor(nSync, v);
            // a successful one is followed by a new list
            if (arg != "fails") waitFor(nRefresh, r + nwin);
        }
        else if (op == "info") { int v = nInfo + nwin; w->getPackageInfo(arg); waitFor(nInfo, v); }
        else if (op == "mark+" || op == "mark-" || op == "unmark")
        {
            cards::cache* p = w->getPackage(arg);
            if (p == nullptr) say("none %s", arg.c_str());
            else
            {
                if (op == "mark+") p->setStatus(STATUS_ENUM_TO_INSTALL);
                if (op == "mark-") p->setStatus(STATUS_ENUM_TO_REMOVE);
                if (op == "unmark") { p->unsetStatus(STATUS_ENUM_TO_INSTALL); p->unsetStatus(STATUS_ENUM_TO_REMOVE); }
                w->refreshJobList();
            }
        }
        else if (op == "clear") w->clearJobList();
        else if (op == "second") { w->subscribeToEvents(&b); nwin = 2; }
        else if (op == "first") { w->unsubscribeFromEvents(&b); nwin = 1; }
        else if (op == "list")
        {
            for (cards::cache* p : w->getPackageList())
                say("pkg %s|%s|%s|%s|%s|%d", p->name().c_str(), p->version().c_str(), p->collection().c_str(), p->description().c_str(), p->packager().c_str(), (int)p->status());
            for (const std::string& s : w->getSetList()) say("set %s", s.c_str());
        }
        else if (op == "jobs") for (cards::cache* p : w->getJobList()) say("job %s|%d", p->name().c_str(), (int)p->status());
        cards_logger::loopCallback();
        say("< %s", op.c_str());
    }
    fflush(stdout);
    _exit(0);
}
