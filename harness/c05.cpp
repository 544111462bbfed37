// C05: CirBuf against a std::deque, random operation histories
#include "h.h"
#include "cirbuf.h"
#include <deque>
static void run(uint64_t seed, int k)
{
    std::mt19937_64 g(seed); CirBuf b((size_t)1 << k); std::deque<unsigned char> m; std::string log = "CirBuf(" + std::to_string(1 << k) + ")"; unsigned char c = 0;
    auto R = [&](uint64_t n){ return n ? g() % n : 0; };
    auto say = [&](const std::string &x){ log += "; " + x; g_case = log; };
    int ops = 3 + R(60);
    for (int i = 0; i < ops; i++) {
        switch (R(12)) {
        case 0: { say("write(b)"); b.write((uint8_t)c); m.push_back(c++); break; }
        case 1: { say("write(b,b2)"); unsigned char x = c++, y = c++; b.write((uint8_t)x, (uint8_t)y); m.push_back(x); m.push_back(y); break; }
        case 2: { size_t n = R(R(4) ? 40 : 3000); say("write(ptr," + std::to_string(n) + ")"); std::vector<char> v(n); for (auto &z : v) { z = c++; m.push_back((unsigned char)z); } b.write(v.data(), n); break; }
        case 3: { size_t n = R(R(4) ? 40 : 3000); say("writerange(" + std::to_string(n) + ")"); std::vector<char> v(n); for (auto &z : v) { z = c++; m.push_back((unsigned char)z); } b.writerange(v.begin(), v.end()); break; }
        case 4: { uint32_t n = R(m.size() + 3); say("readToVector(" + std::to_string(n) + ")"); auto v = b.readToVector(n); size_t e = std::min<size_t>(n, m.size()); if (v.size() != e) FAIL("readToVector returned " + std::to_string(v.size()) + " bytes instead of " + std::to_string(e)); for (auto z : v) { if (m.empty() || (unsigned char)z != m.front()) { FAIL("bytes read are not the oldest bytes in order"); break; } m.pop_front(); } break; }
        case 5: { say("peekAllToVector"); auto v = b.peekAllToVector(); if (v.size() != m.size() || !std::equal(v.begin(), v.end(), m.begin(), [](char a, unsigned char d){ return (unsigned char)a == d; })) FAIL("peekAllToVector differs"); break; }
        case 6: { uint32_t n = R(m.size() + 1); say("advanceTail(" + std::to_string(n) + ")"); b.advanceTail(n); m.erase(m.begin(), m.begin() + n); break; }
        case 7: { size_t n = R(5000); size_t mx = R(2) ? UINT_MAX : (1u << R(14)); say("ensureFreeSpace(" + std::to_string(n) + "," + std::to_string(mx) + ")"); uint32_t before = b.getCapacity(), fb = b.freeSpace(); b.ensureFreeSpace(n, mx); if (b.freeSpace() < n && b.getCapacity() < mx) FAIL("requested room not made"); if (b.getCapacity() != before && b.getCapacity() / 2 >= mx) FAIL("maximum overshot by more than one doubling"); if (fb >= n && b.getCapacity() != before) FAIL("grew without need"); break; }
        case 8: { uint32_t f = 1u << R(3); if (b.getCapacity() > 1u << 18) break; say("doubleCapacity(" + std::to_string(f) + ")"); uint32_t o = b.getCapacity(); b.doubleCapacity(f); if (b.getCapacity() != o * f) FAIL("capacity not multiplied"); break; }
        case 9: { size_t n = (size_t)1 << R(12); say("resetCapacityIfEligable(" + std::to_string(n) + ")"); b.resetCapacityIfEligable(n); break; }
        case 10: { uint32_t w = b.maxWriteSize(); uint32_t n = R(w + 1); say("headPtr write " + std::to_string(n)); for (uint32_t q = 0; q < n; q++) { b.headPtr()[q] = (char)c; m.push_back(c++); } b.advanceHead(n); break; }
        case 11: { uint32_t r = b.maxReadSize(); say("tailPtr read"); if (r > m.size()) FAIL("maxReadSize above the number of buffered bytes"); for (uint32_t q = 0; q < r && q < m.size(); q++) if ((unsigned char)b.tailPtr()[q] != m[q]) { FAIL("tailPtr bytes differ"); break; } break; }
        }
        if (b.usedBytes() != m.size()) FAIL("usedBytes is " + std::to_string(b.usedBytes()) + " but " + std::to_string(m.size()) + " bytes are buffered");
        if (b.usedBytes() + b.freeSpace() != b.getCapacity() - 1) FAIL("used + free is not capacity - 1");
        if (b.maxWriteSize() > b.freeSpace() || (b.freeSpace() && !b.maxWriteSize())) FAIL("maxWriteSize wrong");
        if (!m.empty()) { uint32_t o = R(m.size()); if ((unsigned char)b.peakAhead(o) != m[o]) FAIL("peakAhead(" + std::to_string(o) + ") differs"); if (!b.maxReadSize()) FAIL("maxReadSize is 0 with bytes buffered"); }
        try { b.peakAhead(m.size()); FAIL("peakAhead accepted an offset outside the buffered bytes"); } catch (std::exception &) {}
        try { b.advanceTail(m.size() + 1); FAIL("advanceTail dropped more than buffered"); } catch (std::exception &) {}
        try { b.advanceHead(b.freeSpace() + 1); FAIL("advanceHead added more than free"); } catch (std::exception &) {}
    }
}
static void big()
{
    // position arithmetic at the largest capacity, on a fake buffer (nothing is touched)
    CirBuf b(16); uint32_t os = b.size, S = 1u << 31;
    for (uint32_t t : {0u, 1u, 5u, S - 1, S / 2}) for (uint32_t h : {0u, 1u, 9u, S - 1, S / 2, S / 2 + 7}) {
        b.size = S; b.tail = t; b.head = h; g_case = "capacity 2^31 head " + std::to_string(h) + " tail " + std::to_string(t);
        uint32_t used = (h - t) & (S - 1), r = b.maxReadSize(), w = b.maxWriteSize();
        if (r > used || (used && !r) || (uint64_t)r + t > S) FAIL("maxReadSize is " + std::to_string(r) + " with " + std::to_string(used) + " bytes buffered");
        if (w > S - 1 - used || (w == 0 && used != S - 1) || (uint64_t)w + h > S) FAIL("maxWriteSize is " + std::to_string(w) + " with " + std::to_string(S - 1 - used) + " bytes free");
        b.size = os; b.tail = b.head = 0;
    }
}
int main()
{
    case_timeout(110); big();
    for (uint64_t i = 0; time_left(); i++) run(rng(), i % 11);
    return done();
}
