#pragma once
#include <atomic>
#include <cstdint>
namespace Faults {
	extern std::atomic<long> recvCalls, sendCalls, acceptCalls, acceptFailed, threadFailed, badCloses, lockDelays;
	extern std::atomic<int> shortReads, delayUs, acceptFailErrno, acceptFailCount, threadFailCount, lockDelayUs;
	extern std::atomic<uint64_t> seed;
	// seconds the wall clock of this process is moved by
	extern std::atomic<long long> clockOffset;
	extern std::atomic<long> interrupted, cutSends, signalsSent;
	// sends a handled signal (SA_RESTART) to every thread but the first each `us` microseconds; 0 stops it
	void storm(int us);
}
