// C20, part 2: messages queued for a peer arrive whole, once and in the order they were queued.  Every sequence of message
// sizes over a real connection whose reader is slow, and every interleaving of small programs of senders and the thread
// that serves the sockets.
#include "explore.h"
#include <Net/Socket.h>
#include <Core/Context.h>
#include <Core/Global.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
typedef std::vector<uint8_t> Bytes;
static Bytes message(int id, size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(id * 37 + i * 31 + (i >> 8) * 7); return b; }
struct Line {
	std::shared_ptr<asio::io_context> io = std::make_shared<asio::io_context>(); SocketPtr so; int fd = -1; Bytes in;
	Line()
	{
		asio::ip::tcp::acceptor acc(*io, asio::ip::tcp::endpoint(asio::ip::address_v4::loopback(), 0));
		fd = ::socket(AF_INET, SOCK_STREAM, 0); int rb = 4096; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof(rb));
		sockaddr_in b{}; b.sin_family = AF_INET; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); b.sin_port = htons(acc.local_endpoint().port());
		if (::connect(fd, (sockaddr*)&b, sizeof(b)) != 0) throw std::runtime_error("connect");
		linger lg{ 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
		auto s = std::make_shared<asio::ip::tcp::socket>(*io); acc.accept(*s); s->set_option(asio::socket_base::send_buffer_size(4096)); s->non_blocking(true);
		so.reset(new Socket(SocketAddress::FromEndpoint(s->remote_endpoint()), io, s)); so->SetOpen(true);
	}
	~Line() { if (so) so->CloseSocket(); io->restart(); io->poll(); so.reset(); if (fd >= 0) ::close(fd); }
	void poll() { io->restart(); io->poll(); }
	void pull() { char buf[65536]; ssize_t k; while ((k = ::recv(fd, buf, sizeof(buf), MSG_DONTWAIT)) > 0) in.insert(in.end(), buf, buf + k); }
	// until `want` bytes came, or nothing moves any more
	void drain(size_t want) { int idle = 0; size_t had = in.size(); while (idle < 400) { poll(); pull(); if (in.size() > had) { had = in.size(); idle = 0; } else { idle++; if (in.size() >= want && idle > 3) return; if (idle > 20) usleep(500); } } }
};
static std::string diff(const Bytes& got, const Bytes& want) { if (got.size() != want.size()) return vh::cat(got.size(), " bytes arrived instead of ", want.size()); for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) return vh::cat("byte ", i, " of ", want.size(), " differs"); return ""; }
static const std::vector<size_t> SIZES = { 1, 11, 5000, 300000 };
// between messages: serve the socket, let the peer read, neither, or have the caller's memory used for something else
static void sizes()
{
	int depth = vh::thorough() ? 4 : 3; std::vector<int> s;
	std::function<void()> rec = [&] {
		if (!s.empty()) for (int between = 0; between < 3; between++) {
			std::string n = vh::cat("sizes/", between); for (int i : s) n += vh::cat(" ", SIZES[i]);
			if (vh::begin(n)) {
				Line l; Bytes want; int id = 0;
				for (int i : s) {
					{ Bytes m = message(++id, SIZES[i]); want.insert(want.end(), m.begin(), m.end()); l.so->SendAsync(m); }
					if (between > 0) l.poll();
					if (between > 1) l.pull();
					Bytes other(SIZES[i], 0xee); asm volatile("" : : "r"(other.data()) : "memory");
				}
				l.drain(want.size()); std::string d = diff(l.in, want); if (!d.empty()) vh::fail("sent-garbled", vh::cat(n, ": ", d));
				vh::S().states++; vh::S().transitions += s.size(); vh::S().traces++; vh::outcome(n);
			}
		}
		if ((int)s.size() == depth) return;
		for (int i = 0; i < (int)SIZES.size(); i++) { s.push_back(i); rec(); s.pop_back(); }
	};
	rec();
}
static void interleaved()
{
	struct Prog { std::vector<std::vector<int>> t; int polls; int bound; };
	bool T = vh::thorough(); std::vector<Prog> ps;
	for (int polls : { 1, 2, 3 }) { ps.push_back({ { { 1 } }, polls, 3 }); ps.push_back({ { { 1, 2 } }, polls, 3 }); ps.push_back({ { { 1 }, { 2 } }, polls, polls < 3 ? 3 : 2 }); ps.push_back({ { { 1, 2 }, { 3 } }, polls, T ? 3 : 2 }); if (T) ps.push_back({ { { 1, 2 }, { 3, 4 } }, polls, 2 }); ps.push_back({ { { 1 }, { 2 }, { 3 } }, polls, T ? 2 : 1 }); }
	for (int warm : { 0, 1 }) for (auto& p : ps) {
		std::string n = vh::cat("threads", warm ? " with one under way" : "", " polls ", p.polls, ":"); for (auto& t : p.t) { n += " |"; for (int m : t) n += vh::cat(" ", m); }
		if (!vh::begin(n)) continue;
		std::unique_ptr<Line> l; std::vector<std::function<void()>> th;
		auto msg = [](int id) { return message(id, 20 + id); };
		for (auto& t : p.t) th.push_back([&] { for (int m : t) l->so->SendAsync(msg(m)); });
		th.push_back([&] { for (int i = 0; i < p.polls; i++) { l->poll(); sch::point(); } });
		ex::program(th, p.bound, false, [&] { l.reset(); l.reset(new Line()); if (warm) l->so->SendAsync(msg(9)); }, [&](const std::string& tr) {
			std::set<int> left; size_t want = 0; for (auto& t : p.t) for (int m : t) { left.insert(m); want += 20 + m; } if (warm) { left.insert(9); want += 29; }
			l->drain(want); size_t o = 0; std::vector<int> order;
			while (o < l->in.size()) {
				int hit = 0; for (int m : left) { Bytes b = msg(m); if (l->in.size() - o >= b.size() && std::equal(b.begin(), b.end(), l->in.begin() + o)) hit = m; }
				if (!hit) { vh::fail("sent-garbled", vh::cat(n, " schedule ", tr, ": after ", order.size(), " messages the stream is no message of those still missing (", l->in.size(), " bytes arrived, ", want, " were sent)")); return; }
				left.erase(hit); order.push_back(hit); o += 20 + hit;
			}
			if (!left.empty()) { vh::fail("sent-lost", vh::cat(n, " schedule ", tr, ": ", left.size(), " messages never arrived")); return; }
			auto at = [&](int m) { return std::find(order.begin(), order.end(), m) - order.begin(); };
			for (auto& t : p.t) for (size_t i = 1; i < t.size(); i++) if (at(t[i]) < at(t[i - 1])) vh::fail("sent-order", vh::cat(n, " schedule ", tr, ": messages of one sender arrived out of order"));
			if (warm && at(9) != 0) vh::fail("sent-order", vh::cat(n, " schedule ", tr, ": a message queued before arrived after others"));
			std::string sig = n; for (int m : order) sig += vh::cat(m, ","); vh::outcome(sig); vh::S().traces++;
		});
		l.reset();
	}
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	{ ConfigPtr cfg = Config::Default(Environment::AUTOMATED_TESTING); Global::Init(Context::Create(Environment::AUTOMATED_TESTING, cfg)); sizes(); interleaved(); }
	vh::fini(); fflush(stdout); _exit(0);
}
