// Analysis-only: instantiates the header templates of the repository so that their
// bodies appear in the type-resolved program. Never linked or run.
#include "utils/Macros.hh"
#include "pubsub/ThreadSafeMultiMap.hh"
#include "pubsub/SimplePatternMatcher.hh"
#include "utils/SmartBuffer.hh"
#include "utils/StaticBuffer.hh"
#include "utils/CoreLocalArray.hh"
#include "utils/Synchronized.hh"
#include "utils/AssistedThread.hh"
#include "utils/IntToBinaryString.hh"
#include "utils/ParseUtils.hh"
#include "storage/PatternMatching.hh"
#include "storage/ReverseLocator.hh"
#include "storage/KeyLocators.hh"
#include "storage/KeyDescriptor.hh"
#include "memory/RingAllocator.hh"
#include "memory/PinnedBuffer.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftMembers.hh"
#include "health/HealthIndicator.hh"
#include "utils/InFlightTracker.hh"
#include "utils/ScopedAdder.hh"
#include "utils/VectorUtils.hh"
#include "utils/CommandParsing.hh"
#include "EventFD.hh"

template class quarkdb::ThreadSafeMultiMap<std::string, int>;
template class quarkdb::SimplePatternMatcher<int>;
template class quarkdb::SmartBuffer<64>;
template class quarkdb::StaticBuffer<64>;
template class quarkdb::Synchronized<std::string>;
