// A real node with its real peer-to-peer stack, and fake peers on loopback sockets that speak the protocol to it.
// The node's asio context is driven by the harness, so that it stands still whenever the harness is not running it.
#pragma once
#include "tree.h"
#include <asio.hpp>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <Net/Socket.h>
#include <P2P/Peer.h>
#include <P2P/SyncStatus.h>
#include <P2P/Common.h>
#include <Database/PeerDB.h>
#include "P2P/Connection.h"
#include "P2P/ConnectionManager.h"
#include "P2P/MessageProcessor.h"
#include "P2P/BlockLocator.h"
#include "P2P/Pipeline/Pipeline.h"
#include "P2P/Seed/PeerManager.h"
#include "P2P/Seed/HandShake.h"
#include "P2P/Messages/PingMessage.h"
#include "P2P/Messages/PongMessage.h"
#include "P2P/Messages/GetHeadersMessage.h"
#include "P2P/Messages/HeadersMessage.h"
#include "P2P/Messages/HeaderMessage.h"
#include "P2P/Messages/BlockMessage.h"
#include "P2P/Messages/GetBlockMessage.h"
#include "P2P/Messages/CompactBlockMessage.h"
#include "P2P/Messages/GetCompactBlockMessage.h"
#include "P2P/Messages/TransactionMessage.h"
#include "P2P/Messages/StemTransactionMessage.h"
#include "P2P/Messages/GetTransactionMessage.h"
#include "P2P/Messages/TransactionKernelMessage.h"
#include "P2P/Messages/GetPeerAddressesMessage.h"
#include "P2P/Messages/PeerAddressesMessage.h"
#include "P2P/Messages/TxHashSetRequestMessage.h"
#include "P2P/Messages/TxHashSetArchiveMessage.h"
#include "P2P/Messages/HandMessage.h"
#include "P2P/Messages/ShakeMessage.h"
#include "P2P/Messages/ErrorMessage.h"
#include "P2P/Messages/BanReasonMessage.h"
#include <thread>
#include <csignal>
namespace pp {
typedef std::vector<uint8_t> Bytes;
struct MemPeerDB : public IPeerDB {
	std::vector<PeerPtr> LoadAllPeers() const override { return {}; }
	std::optional<PeerPtr> GetPeer(const IPAddress&, const std::optional<uint16_t>&) const override { return std::nullopt; }
	void SavePeers(const std::vector<PeerPtr>&) override {} void DeletePeers(const std::vector<PeerPtr>&) override {}
	void Commit() override {} void Rollback() noexcept override {}
};
struct Msg { int type = -1; Bytes body; bool operator==(const Msg& o) const { return type == o.type && body == o.body; } std::string str() const { return type < 0 ? "(end of stream)" : vh::cat(MessageTypes::ToString((MessageTypes::EMessageType)type), "(", body.size(), " bytes)"); } };
inline Bytes pack(const IMessage& m, EProtocolVersion v) { return m.Serialize(v); }
inline Msg unpack(const Bytes& b) { Msg m; m.type = b.at(2); m.body.assign(b.begin() + 11, b.end()); return m; }
inline Bytes frame(int type, const Bytes& body) { Bytes b = Global::GetMagicBytes(); b.push_back((uint8_t)type); for (int i = 7; i >= 0; i--) b.push_back((uint8_t)((uint64_t)body.size() >> (8 * i))); b.insert(b.end(), body.begin(), body.end()); return b; }
// The process is stuck (a handler waits for a lock it holds itself, say): nothing else can report it.
inline void onAlarm(int) { vh::fail("stuck", "the node does not answer any more: the thread that serves its peers is stuck, or an answer never comes"); vh::fini(); fflush(stdout); _exit(0); }
inline void watchdog(unsigned s) { signal(SIGALRM, onAlarm); alarm(s); }

struct Stack;
// the far end of one connection
struct Far {
	int fd = -1; Stack* st = nullptr; Connection::Ptr conn; PeerPtr peer; IPAddress ip; Bytes in; bool eof = false; EProtocolVersion ver = EProtocolVersion::V2;
	~Far() { close(); }
	void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
	void raw(const Bytes& b);
	void send(const IMessage& m) { raw(pack(m, ver)); }
	void pull() { char buf[65536]; for (;;) { ssize_t k = ::recv(fd, buf, sizeof(buf), MSG_DONTWAIT); if (k > 0) in.insert(in.end(), buf, buf + k); else { if (k == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) eof = true; break; } } }
	bool next(Msg& m)
	{
		if (in.size() < 11) return false;
		uint64_t len = 0; for (int i = 3; i < 11; i++) len = len << 8 | in[i];
		if (in.size() < 11 + len) return false;
		m.type = in[2]; m.body.assign(in.begin() + 11, in.begin() + 11 + len); in.erase(in.begin(), in.begin() + 11 + len); return true;
	}
	bool wait(Msg& m, int ms = 30000); // next message that is not a Ping of the node's own; false: the stream ended
};
struct Stack {
	ch::Session* s; std::shared_ptr<asio::io_context> io = std::make_shared<asio::io_context>(); asio::executor_work_guard<asio::io_context::executor_type> guard{ io->get_executor() };
	ConnectionManagerPtr cm; std::shared_ptr<Locked<PeerManager>> pm; SyncStatusPtr sync = std::make_shared<SyncStatus>(); std::shared_ptr<Pipeline> pipe; std::shared_ptr<MessageProcessor> mp;
	std::unique_ptr<asio::ip::tcp::acceptor> acc; uint64_t id = 1; int lastIp = 2;
	ch::Node& node() { return *s->node; }
	explicit Stack(ch::Session* ss, bool mgr = true) : s(ss)
	{
		cm = ConnectionManager::Create(); pm = PeerManager::Create(ch::ctx(), std::make_shared<Locked<IPeerDB>>(std::make_shared<MemPeerDB>()));
		pipe = Pipeline::Create(Global::GetConfig(), cm, s->node->chain, sync); sync->UpdateStatus(ESyncStatus::NOT_SYNCING);
		mp = std::make_shared<MessageProcessor>(*cm, *pm, s->node->chain, pipe, sync);
		acc.reset(new asio::ip::tcp::acceptor(*io, asio::ip::tcp::endpoint(asio::ip::address_v4::loopback(), 0)));
		s->node->chain->UpdateSyncStatus(*sync);
	}
	void run(int n = 4) { for (int i = 0; i < n; i++) { io->restart(); io->poll(); } }
	bool spin(const std::function<bool()>& done, int ms = 30000)
	{
		auto t0 = std::chrono::steady_clock::now();
		for (int i = 0; !done(); i++) {
			run(1);
			if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms)) return false;
			if (i > 50) std::this_thread::sleep_for(std::chrono::microseconds(100));
		}
		return true;
	}
	// a pair of connected sockets; the far one has an address of its own
	std::shared_ptr<asio::ip::tcp::socket> pair(Far& f, const std::string& addr)
	{
		f.fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; inet_pton(AF_INET, addr.c_str(), &a.sin_addr);
		if (::bind(f.fd, (sockaddr*)&a, sizeof(a)) != 0) throw std::runtime_error("bind");
		sockaddr_in b{}; b.sin_family = AF_INET; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); b.sin_port = htons(acc->local_endpoint().port());
		if (::connect(f.fd, (sockaddr*)&b, sizeof(b)) != 0) throw std::runtime_error("connect");
		int one = 1; setsockopt(f.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
		linger lg{ 1, 0 }; setsockopt(f.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg)); // no TIME_WAIT
		auto sock = std::make_shared<asio::ip::tcp::socket>(*io); acc->accept(*sock); return sock;
	}
	std::string nextIp() { int i = lastIp++; return vh::cat("127.", 1 + i / 60000 % 200, ".", i / 250 % 240, ".", 2 + i % 250); }
	// what Seeder::Accept does with a new socket
	std::unique_ptr<Far> accept(EDirection dir = EDirection::INBOUND, const std::string& addr = "", PeerPtr known = nullptr)
	{
		auto f = std::make_unique<Far>(); f->st = this; std::string a = addr.empty() ? nextIp() : addr; auto sock = pair(*f, a);
		f->ip = IPAddress::Parse(a); f->peer = known ? known : pm->Write()->GetPeer(f->ip);
		SocketAddress sa = SocketAddress::FromEndpoint(sock->remote_endpoint());
		SocketPtr so(new Socket(sa, io, sock)); so->SetOpen(true);
		f->conn = std::make_shared<Connection>(so, id++, *cm, ConnectedPeer(f->peer, dir, so->GetPort()), sync, mp);
		return f;
	}
	HandMessage hand(uint32_t version = 2, uint64_t nonce = 77, const Hash& gen = Global::GetGenesisHash(), uint32_t caps = Capabilities::FAST_SYNC_NODE, uint64_t diff = 5)
	{
		IPAddress lo = IPAddress::CreateV4({ 127, 0, 0, 1 });
		return HandMessage(version, Capabilities(caps), nonce, Hash(gen), diff, SocketAddress(lo, 1), SocketAddress(lo, 2), "far");
	}
	// an inbound peer that has shaken hands
	std::unique_ptr<Far> peer(uint32_t version = 2)
	{
		auto f = accept(); f->ver = ProtocolVersion::ToEnum(version);
		f->raw(pack(hand(version), EProtocolVersion::V1)); f->conn->Connect();
		Msg m; if (!f->wait(m) || m.type != MessageTypes::Shake) { vh::fail("handshake", "a proper handshake was not answered with a Shake but " + m.str()); return nullptr; }
		if (!spin([&] { return cm->GetConnection(f->conn->GetId()) != nullptr; })) { vh::fail("handshake", "a peer was not added after its handshake"); return nullptr; }
		return f;
	}
};
inline void Far::raw(const Bytes& b)
{
	size_t o = 0; auto t0 = std::chrono::steady_clock::now();
	while (o < b.size()) {
		ssize_t k = ::send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (k > 0) o += k; else if (errno == EAGAIN || errno == EWOULDBLOCK) { st->run(1); pull(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) return; } else { eof = true; return; }
	}
}
inline bool Far::wait(Msg& m, int ms)
{
	for (;;) {
		bool got = false;
		bool ok = st->spin([&] { pull(); return (got = next(m)) || eof; }, ms);
		if (got) { if (m.type == MessageTypes::Ping) continue; return true; }
		if (!ok) { m.type = -2; return false; }
		m.type = -1; return false;
	}
}
}
