// C13: TCP connections deliver what was sent, in order and once, to the peer they belong to;
// listeners, connects and name lookups report what happened and lose no descriptors.
#include "common.h"
#include <atomic>
#include <memory>
#include <map>
#include <signal.h>
#include <deque>
#include <arpa/inet.h>
#include <ply-runtime/network/Socket.h>
#include <ply-runtime/container/Owned.h>
using namespace wl;

namespace {
const char* resName(IPResult r) {
    static const char* n[] = {"Unknown", "OK", "NoSocket", "Unreachable", "Refused", "InUse"};
    return (u32) r < 6 ? n[(u32) r] : "garbage";
}
sim::Sock* sockOf(int fd) {
    sim::Quiet q;
    auto& t = sim::cur->proc->fds;
    auto it = t.find(fd);
    if (it == t.end() || !it->second.f->sock)
        sim::violate("descriptor", "a connection or listener holds descriptor %d, which is not an open socket", fd);
    return it->second.f->sock.get();
}
std::string ipBytes(const IPAddress& a) {
    return std::string((const char*) a.netOrdered, 16);
}
std::string mapped(const std::string& ip) {
    return ip.size() == 4 ? std::string("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12) + ip : ip;
}
bool useV6;
IPAddress someAddress() {
    switch (W.below(useV6 ? 4 : 2)) {
        case 0:
            return IPAddress::localHost(IPAddress::V4);
        case 1:
            return IPAddress::fromIPv4(0x04030201u);
        case 2:
            return IPAddress::localHost(IPAddress::V6);
        default: {
            IPAddress a = IPAddress::localHost(IPAddress::V6);
            a.netOrdered[0] = 0x12345678;
            return a;
        }
    }
}
u32 numFds() {
    sim::Quiet q;
    return sim::k::numFds(sim::cur->proc);
}
bool anyErr() { // has anything been injected that may break a connection?
    static const sim::Fault fs[] = {sim::FT_READ_ERR, sim::FT_WRITE_ERR, sim::FT_RESET, sim::FT_ACCEPT_ERR,
                                    sim::FT_CONN_ERR, sim::FT_FD_LIMIT,  sim::FT_NOMEM, sim::FT_META_ERR};
    for (auto f : fs)
        if (sim::faultCount(f))
            return true;
    return false;
}

//---------------------------------------------------------------- transfers
struct Conn { // one client and its server side
    u32 id;
    u32 toServer, toClient; // bytes
    bool clientCloses;      // who closes first
    std::string up, down;   // what is sent
    std::string gotUp, gotDown;
    bool upEof = false, downEof = false; // clean end seen after everything
    bool served = false, connected = false;
    bool clientGone = false, serverGone = false;
};
struct Plan {
    std::vector<std::unique_ptr<Conn>> conns;
    u32 left = 0; // clients not yet done
};
Plan* plan;

void sendAll(TCPConnection* c, const std::string& data, u32 id) {
    u32 mode = W.below(3);
    size_t pos = 0;
    if (mode == 0) {
        while (pos < data.size()) {
            u32 n = (u32) std::min<size_t>(data.size() - pos, 1 + sizeDraw(2000));
            u32 e = sim::errFaults();
            bool ok = c->outPipe.write({data.data() + pos, n});
            u32 e2 = sim::errFaults();
            SIM_CHECK(ok || anyErr(), "send", "connection %u: sending failed without reason", id);
            if (sim::faultCount(sim::FT_WRITE_ERR) && e2 != e)
                SIM_CHECK(!ok, "send", "connection %u: sending reported success although the system reported an error", id);
            if (!ok)
                return;
            pos += n;
        }
    } else {
        OutStream outs = mode == 1 ? c->createOutStream() : OutStream{borrow(&c->outPipe), 7u + W.below(4)};
        while (pos < data.size()) {
            u32 n = (u32) std::min<size_t>(data.size() - pos, 1 + sizeDraw(500));
            outs.write({data.data() + pos, n});
            pos += n;
            if (W.below(6) == 0)
                outs.flush();
        }
        bool ok = outs.flush();
        SIM_CHECK((ok && !outs.atEOF()) || anyErr(), "send", "connection %u: sending failed without reason", id);
    }
}
// Reads `n` bytes and, if asked for, what follows.
void receive(TCPConnection* c, u32 n, bool toEnd, std::string* got, bool* cleanEnd, u32 id, u32 mode) {
    std::vector<char> buf(4096);
    if (mode == 0) {
        while (got->size() < n || toEnd) {
            u32 want = 1 + sizeDraw(1000);
            if (want > 4096)
                want = 4096;
            if (!toEnd && want > n - got->size())
                want = (u32) (n - got->size());
            u32 r = c->inPipe.readSome({buf.data(), want});
            SIM_CHECK(r <= want, "receive", "connection %u: %u bytes were read into a buffer of %u", id, r, want);
            if (r == 0) {
                sim::Quiet q;
                *cleanEnd = true;
                return;
            }
            sim::Quiet q;
            got->append(buf.data(), r);
        }
    } else {
        InStream ins = mode == 1 ? c->createInStream() : InStream{borrow(&c->inPipe), 7u + W.below(4)};
        while (got->size() < n || toEnd) {
            u32 avail = ins.tryMakeBytesAvailable();
            if (avail == 0) {
                SIM_CHECK(ins.atEOF(), "receive", "connection %u: nothing available, but not at the end", id);
                sim::Quiet q;
                *cleanEnd = true;
                return;
            }
            u32 take = 1 + W.below(avail);
            if (!toEnd && take > n - got->size())
                take = (u32) (n - got->size());
            {
                sim::Quiet q;
                got->append(ins.curByte, take);
            }
            ins.curByte += take;
        }
    }
}
void checkReceived(const Conn& c, const std::string& sent, const std::string& got, const char* dir) {
    SIM_CHECK(got.size() <= sent.size() && memcmp(got.data(), sent.data(), got.size()) == 0, "data", "connection %u, %s: what arrived (%zu bytes) is not what was sent (%zu bytes)", c.id,
              dir, got.size(), sent.size());
    if (!anyErr())
        SIM_CHECK(got.size() == sent.size(), "data", "connection %u, %s: %zu of %zu bytes arrived", c.id, dir, got.size(), sent.size());
}
// Both directions at once; the side that does not close first waits for the end.
void talk(TCPConnection* conn, Conn* c, bool client) {
    const std::string& out = client ? c->up : c->down;
    std::string* in = client ? &c->gotDown : &c->gotUp;
    u32 expect = (u32) (client ? c->down.size() : c->up.size());
    bool* end = client ? &c->downEof : &c->upEof;
    bool closesFirst = c->clientCloses == client;
    u32 mode = W.below(3);
    if (W.below(2)) {
        u32 id = sim::spawn(client ? "client-writer" : "server-writer", [&] { sendAll(conn, out, c->id); });
        receive(conn, expect, !closesFirst, in, end, c->id, mode);
        sim::joinFiber(id);
    } else {
        u32 id = sim::spawn(client ? "client-reader" : "server-reader", [&] { receive(conn, expect, !closesFirst, in, end, c->id, mode); });
        sendAll(conn, out, c->id);
        sim::joinFiber(id);
    }
}
// The server learns from the first bytes which connection it is.
void serve(Owned<TCPConnection> conn) {
    char hdr[4];
    u32 have = 0;
    while (have < 4) {
        u32 r = conn->inPipe.readSome({hdr + have, 4 - have});
        if (r == 0)
            break;
        have += r;
    }
    if (have < 4) {
        SIM_CHECK(anyErr(), "data", "a connection ended before the first bytes arrived");
        return;
    }
    Conn* c = nullptr;
    {
        sim::Quiet q;
        u32 id = (u8) hdr[0] | (u32) (u8) hdr[1] << 8;
        if (hdr[2] != 'O' || hdr[3] != 'K' || id >= plan->conns.size())
            sim::violate("data", "the first bytes of a connection were not those sent");
        c = plan->conns[id].get();
        if (c->served)
            sim::violate("data", "one connection was accepted twice");
        c->served = true;
    }
    talk(conn.get(), c, false);
    {
        sim::Quiet q;
        c->serverGone = true;
    }
    conn.clear();
}
void client(Conn* c, u16 port) {
    IPAddress a = someAddress();
    Owned<TCPConnection> conn;
    for (u32 tries = 0; tries < 3 && !conn; tries++) {
        u32 e = sim::errFaults();
        conn = Socket::connectTCP(a, port);
        IPResult r = Socket::lastResult();
        if (conn) {
            SIM_CHECK(r == IPResult::OK, "result", "connecting succeeded, but the result is %s", resName(r));
        } else {
            SIM_CHECK(e != sim::errFaults() || anyErr(), "connect", "connecting to a listener failed (%s)", resName(r));
            SIM_CHECK(r != IPResult::OK, "result", "connecting failed, but the result is OK");
            sim::hit("connect failed");
        }
    }
    if (!conn)
        return;
    SIM_CHECK(ipBytes(conn->remoteAddress()) == ipBytes(a) && conn->remotePort() == port, "address", "the remote address of a connection is not the one connected to");
    {
        sim::Quiet q;
        c->connected = true;
    }
    char hdr[4] = {(char) c->id, (char) (c->id >> 8), 'O', 'K'};
    if (!conn->outPipe.write({hdr, 4})) {
        SIM_CHECK(anyErr(), "send", "sending the first bytes failed without reason");
        return;
    }
    talk(conn.get(), c, true);
    {
        sim::Quiet q;
        c->clientGone = true;
    }
    conn.clear();
}
void transfer() {
    Plan p;
    plan = &p;
    u32 n = 1 + W.below(4);
    u16 port = (u16) (W.below(3) ? 8080 : 60000 + W.below(5000));
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.2 : 0;
    sim::faultRate[sim::FT_NET_DELAY] = W.below(2) ? 0.05 : 0;
    if (W.below(2) == 0) {
        double r = W.below(2) ? 0.02 : 0.1;
        sim::faultRate[sim::FT_RESET] = W.below(2) ? r : 0;
        sim::faultRate[sim::FT_READ_ERR] = W.below(3) ? 0 : r;
        sim::faultRate[sim::FT_WRITE_ERR] = W.below(3) ? 0 : r;
        sim::faultRate[sim::FT_ACCEPT_ERR] = W.below(3) ? 0 : r * 3;
        sim::faultRate[sim::FT_CONN_ERR] = W.below(3) ? 0 : r * 3;
        sim::faultRate[sim::FT_FD_LIMIT] = W.below(3) ? 0 : r * 2;
    }
    if (W.below(2)) {
        sim::k::net.sndCap = 1 + W.below(300);
        sim::k::net.maxSegment = 1 + W.below(100);
    }
    for (u32 i = 0; i < n; i++) {
        p.conns.emplace_back(new Conn);
        Conn* c = p.conns.back().get();
        c->id = i;
        c->up = patternBytes(sizeDraw(600), 100 + 2 * i);
        c->down = patternBytes(sizeDraw(600), 101 + 2 * i);
        c->clientCloses = W.below(2);
    }
    u32 fds0 = numFds();
    p.left = n;
    std::atomic<bool> bound{false};
    bool failed = false;
    std::vector<u32> handlers;
    u32 accepted = 0;
    bool threadPer = W.below(4) != 0;
    TCPListener shared;
    auto acceptAll = [&] {
        for (;;) {
            {
                sim::Quiet q;
                if (!plan->left)
                    break;
            }
            u32 e = sim::errFaults();
            Owned<TCPConnection> conn = shared.accept();
            IPResult r = Socket::lastResult();
            if (!conn) {
                SIM_CHECK(r != IPResult::OK, "result", "accepting failed, but the result is OK");
                bool over;
                {
                    sim::Quiet q;
                    over = !plan->left;
                }
                SIM_CHECK(over || e != sim::errFaults(), "accept", "accepting failed without reason");
                sim::hit("accept failed");
                continue;
            }
            SIM_CHECK(r == IPResult::OK, "result", "accepting succeeded, but the result is %s", resName(r));
            sim::Sock* s = sockOf(conn->getHandle());
            {
                sim::Quiet q;
                std::string ip = mapped(s->peerIp);
                if (ipBytes(conn->remoteAddress()) != ip || conn->remotePort() != s->peerPort)
                    sim::violate("address", "the remote address of an accepted connection is wrong (port %u instead of %u)", conn->remotePort(), s->peerPort);
            }
            sim::Quiet q;
            accepted++;
            if (threadPer) {
                TCPConnection* raw = conn.release();
                handlers.push_back(sim::spawn("handler", [raw] {
                    Owned<TCPConnection> c = raw;
                    serve(std::move(c));
                }));
                continue;
            }
            struct Back { // the rest is code under test again
                TCPConnection* raw;
            } b{conn.release()};
            handlers.push_back(sim::spawn("handler", [b] {
                Owned<TCPConnection> c = b.raw;
                serve(std::move(c));
            }));
        }
    };
    u32 srv = sim::spawn("server", [&] {
        TCPListener l;
        for (u32 t = 0; t < 50 && !l.isValid(); t++) {
            l = Socket::bindTCP(port);
            SIM_CHECK(l.isValid() == (Socket::lastResult() == IPResult::OK), "result", "binding: valid %d, result %s", l.isValid(), resName(Socket::lastResult()));
        }
        SIM_CHECK(l.isValid() || anyErr(), "bind", "binding failed (%s)", resName(Socket::lastResult()));
        if (!l.isValid()) {
            sim::Quiet q;
            bound = failed = true;
            return;
        }
        shared = std::move(l);
        SIM_CHECK(!l.isValid() && shared.isValid(), "listener", "moving a listener left the old one valid");
        bound = true; // publishes the listener
        acceptAll();
    });
    sim::waitUntil([&] { return bound.load(); });
    bound.load();
    std::vector<u32> ids, more;
    if (!failed) {
        // more threads may accept from the same listener
        for (u32 k = W.below(3) ? 0 : 1 + W.below(2); k; k--) {
            more.push_back(sim::spawn("acceptor", acceptAll));
            sim::hit("several acceptors");
        }
        for (auto& c : p.conns) {
            Conn* cp = c.get();
            ids.push_back(sim::spawn("client", [cp, port] { client(cp, port); }));
        }
        for (u32 id : ids)
            sim::joinFiber(id);
        sim::waitUntil([&] {
            bool all = true;
            for (auto& c : p.conns)
                all &= c->serverGone;
            return all || anyErr();
        });
        {
            sim::Quiet q;
            p.left = 0;
        }
        shared.endComm(); // ends the accept
    }
    sim::joinFiber(srv);
    for (u32 id : more)
        sim::joinFiber(id);
    for (size_t i = 0; i < handlers.size(); i++)
        sim::joinFiber(handlers[i]);
    shared.close();
    SIM_CHECK(!shared.isValid(), "listener", "a closed listener is valid");
    SIM_CHECK(numFds() == fds0, "fd-leak", "%u descriptors instead of %u are open at the end", numFds(), fds0);
    for (auto& c : p.conns) {
        checkReceived(*c, c->up, c->gotUp, "to the server");
        checkReceived(*c, c->down, c->gotDown, "to the client");
        if (!anyErr() && !failed) {
            SIM_CHECK(c->connected && c->served, "connect", "connection %u was not served", c->id);
            SIM_CHECK(c->clientCloses ? c->upEof : c->downEof, "data", "connection %u: the end of the stream was not seen", c->id);
            sim::hit("complete");
        } else
            sim::hit("broken");
    }
}

//---------------------------------------------------------------- listeners and connects, against a model
void lifecycle() {
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.15 : 0;
    double r = W.below(2) ? 0.15 : 0;
    for (auto f : {sim::FT_FD_LIMIT, sim::FT_NOMEM, sim::FT_META_ERR, sim::FT_ACCEPT_ERR, sim::FT_CONN_ERR})
        sim::faultRate[f] = W.below(2) ? r : 0;
    u32 fds0 = numFds();
    {
        const u32 N = 3;
        TCPListener ls[N];
        u16 portOf[N] = {};
        std::deque<u32> waiting[N]; // client ports in the order of connecting
        struct Client {
            Owned<TCPConnection> c;
            sim::Sock* s;
        };
        std::vector<Client> clients;
        std::vector<Owned<TCPConnection>> accepted;
        u32 ops = 3 + W.below(25);
        auto unbind = [&](u32 i) {
            portOf[i] = 0;
            waiting[i].clear();
        };
        for (u32 k = 0; k < ops; k++) {
            u32 i = W.below(N), j = W.below(N);
            u16 port = (u16) (5000 + W.below(3));
            u32 e = sim::errFaults();
            switch (W.below(9)) {
                case 0:
                case 1: { // bind
                    bool taken = false;
                    u32 tmp = N;
                    for (u32 t = 0; t < N; t++)
                        taken |= portOf[t] == port;
                    for (u32 t = 0; t < N; t++)
                        if (!portOf[t])
                            tmp = t;
                    if (tmp == N)
                        break;
                    u32 before = numFds();
                    TCPListener n = Socket::bindTCP(port);
                    IPResult res = Socket::lastResult();
                    bool faulty = e != sim::errFaults();
                    SIM_CHECK(n.isValid() == (res == IPResult::OK), "result", "binding: valid %d, result %s", n.isValid(), resName(res));
                    if (!faulty) {
                        SIM_CHECK(n.isValid() == !taken, "bind", "binding to a %s port %s", taken ? "used" : "free", n.isValid() ? "succeeded" : "failed");
                        SIM_CHECK(!taken || res == IPResult::InUse, "result", "binding to a used port gave %s", resName(res));
                    }
                    SIM_CHECK(numFds() == before + n.isValid(), "fd-leak", "binding left %d descriptors open", (int) (numFds() - before));
                    if (n.isValid()) {
                        sim::Sock* s = sockOf(n.listenSocket);
                        SIM_CHECK(s->port == port && s->st == sim::Sock::Listening, "bind", "a listener does not listen on its port");
                        if (W.below(2)) {
                            TCPListener m{std::move(n)};
                            SIM_CHECK(m.isValid() && !n.isValid(), "listener", "moving a listener failed");
                            ls[tmp] = std::move(m);
                        } else
                            ls[tmp] = std::move(n);
                        portOf[tmp] = port;
                    }
                    break;
                }
                case 2:
                case 3:
                case 4: { // connect
                    u32 to = N;
                    for (u32 t = 0; t < N; t++)
                        if (portOf[t] == port)
                            to = t;
                    if (to != N && waiting[to].size() >= 1)
                        break; // the backlog is full: connecting would wait
                    IPAddress a = someAddress();
                    u32 before = numFds();
                    Owned<TCPConnection> c = Socket::connectTCP(a, port);
                    IPResult res = Socket::lastResult();
                    bool faulty = e != sim::errFaults();
                    if (!faulty) {
                        SIM_CHECK(!!c == (to != N), "connect", "connecting to a port %s listener %s", to != N ? "with a" : "without", c ? "succeeded" : "failed");
                        SIM_CHECK(c || res == IPResult::Refused, "result", "a refused connection gave %s", resName(res));
                        if (!c)
                            sim::hit("refused");
                    }
                    SIM_CHECK(!!c == (res == IPResult::OK), "result", "connecting %s with result %s", c ? "succeeded" : "failed", resName(res));
                    SIM_CHECK(numFds() == before + (c ? 1 : 0), "fd-leak", "connecting left %d descriptors open", (int) (numFds() - before));
                    if (c) {
                        SIM_CHECK(to != N, "connect", "connecting without a listener succeeded");
                        SIM_CHECK(ipBytes(c->remoteAddress()) == ipBytes(a) && c->remotePort() == port, "address", "wrong remote address of a connection");
                        sim::Sock* s = sockOf(c->getHandle());
                        SIM_CHECK(s->peerPort == port && mapped(s->peerIp) == ipBytes(a), "address", "a connection goes to another address than asked for");
                        waiting[to].push_back(s->port);
                        clients.push_back({std::move(c), s});
                    }
                    break;
                }
                case 5:
                case 6: { // accept
                    if (portOf[i] && waiting[i].empty())
                        break;
                    u32 before = numFds();
                    Owned<TCPConnection> c = ls[i].accept();
                    IPResult res = Socket::lastResult();
                    SIM_CHECK(!!c == (res == IPResult::OK), "result", "accepting %s with result %s", c ? "succeeded" : "failed", resName(res));
                    SIM_CHECK(numFds() == before + (c ? 1 : 0), "fd-leak", "accepting left %d descriptors open", (int) (numFds() - before));
                    if (!portOf[i]) {
                        SIM_CHECK(!c && res == IPResult::NoSocket, "result", "accepting from an unbound listener gave %s", resName(res));
                        break;
                    }
                    if (!c) {
                        SIM_CHECK(e != sim::errFaults(), "accept", "accepting failed without reason");
                        sim::Sock* s = sockOf(ls[i].listenSocket); // an aborted connection is gone
                        while (waiting[i].size() > s->acceptQ.size())
                            waiting[i].pop_front();
                        break;
                    }
                    SIM_CHECK(c->remotePort() == waiting[i].front(), "accept", "connections are not accepted in order");
                    sim::Sock* s = sockOf(c->getHandle());
                    SIM_CHECK(s->peerPort == c->remotePort() && mapped(s->peerIp) == ipBytes(c->remoteAddress()), "address", "wrong remote address of an accepted connection");
                    waiting[i].pop_front();
                    accepted.push_back(std::move(c));
                    sim::hit("accepted");
                    break;
                }
                case 7: { // close or replace
                    if (W.below(2)) {
                        ls[i].close();
                        SIM_CHECK(!ls[i].isValid(), "listener", "a closed listener is valid");
                        unbind(i);
                    } else if (i != j) {
                        ls[i] = std::move(ls[j]);
                        SIM_CHECK(!ls[j].isValid() && ls[i].isValid() == !!portOf[j], "listener", "moving a listener failed");
                        portOf[i] = portOf[j];
                        waiting[i] = waiting[j];
                        unbind(j);
                    }
                    break;
                }
                default: { // drop a connection
                    if (clients.size() && W.below(2)) {
                        clients.erase(clients.begin() + W.below((u32) clients.size()));
                    } else if (accepted.size())
                        accepted.erase(accepted.begin() + W.below((u32) accepted.size()));
                }
            }
            u32 want = fds0 + (u32) clients.size() + (u32) accepted.size();
            for (u32 t = 0; t < N; t++)
                want += !!portOf[t];
            SIM_CHECK(numFds() == want, "fd-leak", "%u descriptors instead of %u are open", numFds(), want);
        }
    }
    SIM_CHECK(numFds() == fds0, "fd-leak", "%u descriptors instead of %u are open at the end", numFds(), fds0);
    sim::hit("lifecycle");
}

//---------------------------------------------------------------- ending a blocked accept; results are per thread
void endAccept() {
    u32 fds0 = numFds();
    {
        TCPListener l = Socket::bindTCP(7000);
        SIM_CHECK(l.isValid(), "bind", "binding failed");
        bool ended = false;
        u32 id = sim::spawn("acceptor", [&] {
            SIM_CHECK(Socket::lastResult() == IPResult::Unknown, "result", "the last result of a new thread is %s", resName(Socket::lastResult()));
            Owned<TCPConnection> c = l.accept();
            SIM_CHECK(!c, "accept", "accepting succeeded without a connection");
            SIM_CHECK(Socket::lastResult() != IPResult::OK, "result", "an ended accept gave OK");
            sim::Quiet q;
            ended = true;
        });
        u32 other = sim::spawn("connector", [&] {
            for (u32 k = W.below(4); k; k--) {
                Owned<TCPConnection> c = Socket::connectTCP(someAddress(), 7001);
                SIM_CHECK(!c && Socket::lastResult() == IPResult::Refused, "result", "a refused connection gave %s", resName(Socket::lastResult()));
                sim::yield();
                SIM_CHECK(Socket::lastResult() == IPResult::Refused, "result", "another thread changed the last result");
            }
        });
        if (W.below(3))
            sim::sleepNs(W.below(2000000));
        SIM_CHECK(Socket::lastResult() == IPResult::OK, "result", "another thread changed the last result to %s", resName(Socket::lastResult()));
        l.endComm();
        sim::joinFiber(id); // a hang shows as a deadlock
        sim::joinFiber(other);
        SIM_CHECK(Socket::lastResult() == IPResult::OK, "result", "another thread changed the last result to %s", resName(Socket::lastResult()));
        if (W.below(2))
            l.close();
    }
    SIM_CHECK(numFds() == fds0, "fd-leak", "%u descriptors instead of %u are open at the end", numFds(), fds0);
    sim::hit("accept ended");
}

//---------------------------------------------------------------- names
void resolve() {
    sim::faultRate[sim::FT_DNS_ERR] = W.below(2) ? 0.3 : 0;
    struct Host {
        std::string name;
        std::vector<std::string> v4, v6;
    };
    static const char* a4[] = {"10.1.2.3", "192.168.0.255", "1.2.3.4"};
    static const char* a6[] = {"fe80::1", "2001:db8::5:7", "::1"};
    std::vector<Host> hosts;
    for (u32 i = 0; i < 3; i++) {
        Host h;
        h.name = std::string("host") + (char) ('a' + i) + (W.below(2) ? ".example.com" : "");
        std::vector<std::string> all;
        for (u32 k = W.below(4); k; k--) {
            if (W.below(2)) {
                h.v4.push_back(a4[W.below(3)]);
                all.push_back(h.v4.back());
            } else {
                h.v6.push_back(a6[W.below(3)]);
                all.push_back(h.v6.back());
            }
        }
        sim::k::addHost(h.name, all);
        hosts.push_back(h);
    }
    auto bin = [](const std::string& t) {
        char b[16];
        if (inet_pton(AF_INET, t.c_str(), b) == 1)
            return mapped(std::string(b, 4));
        inet_pton(AF_INET6, t.c_str(), b);
        return std::string(b, 16);
    };
    for (u32 k = 0; k < 4; k++) {
        Host h = hosts[W.below(3)];
        switch (W.below(5)) {
            case 0:
                h.name = "nosuch.example";
                h.v4.clear();
                h.v6.clear();
                break;
            case 1:
                h.name = a4[W.below(3)];
                h.v6.clear();
                h.v4 = {h.name};
                break;
            default:
                break;
        }
        IPAddress::Version v = W.below(2) ? IPAddress::V6 : IPAddress::V4;
        u32 n0 = sim::faultCount(sim::FT_DNS_ERR);
        // the name need not be null-terminated
        std::string in = h.name + "xyz";
        IPAddress a = IPAddress::resolveHostName({in.data(), (u32) h.name.size()}, v);
        std::string want(16, 0);
        if (sim::faultCount(sim::FT_DNS_ERR) == n0) {
            if (v == IPAddress::V6 && h.v6.size())
                want = bin(h.v6[0]);
            else if (h.v4.size())
                want = bin(h.v4[0]);
        } else
            sim::hit("lookup failed");
        SIM_CHECK(ipBytes(a) == want, "resolve", "looking up '%s' (version %s) gave %s", h.name.c_str(), v == IPAddress::V6 ? "6" : "4",
                  a.isNull() ? "nothing" : want == std::string(16, 0) ? "an address although it has none" : "another address");
        sim::hit("resolved");
    }
}

void c13() {
    sim::randomSchedule(W.below(2));
    sim::sched.raceDetect = true;
    signal(SIGPIPE, SIG_DFL);
    useV6 = W.below(3) != 0;
    Socket::initialize(useV6 ? IPAddress::V6 : IPAddress::V4);
    switch (W.below(8)) {
        case 0:
            resolve();
            break;
        case 1:
            endAccept();
            break;
        case 2:
        case 3:
            lifecycle();
            break;
        default:
            transfer();
    }
    sim::noFaults();
    Socket::shutdown();
}
SIM_PROP("C13", c13, "TCP connections");
} // namespace
