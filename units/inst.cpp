// Instantiations of the templates of the repository's headers that the checks look at.
#include "bin_utils.h"
#include "file_utils.h"
#include "poll_plan.h"
#include <iterator>
#include <memory>
#include <string>

using It = std::vector<uint8_t>::const_iterator;
using Back = std::back_insert_iterator<std::vector<uint8_t>>;

template uint16_t BinUtils::Get<uint16_t, It>(It, It);
template uint32_t BinUtils::Get<uint32_t, It>(It, It);
template uint64_t BinUtils::Get<uint64_t, It>(It, It);
template uint16_t BinUtils::GetBigEndian<uint16_t, It>(It, It);
template uint32_t BinUtils::GetBigEndian<uint32_t, It>(It, It);
template uint64_t BinUtils::GetBigEndian<uint64_t, It>(It, It);
template uint16_t BinUtils::GetFrom<uint16_t, It>(It);
template uint32_t BinUtils::GetFrom<uint32_t, It>(It);
template uint64_t BinUtils::GetFrom<uint64_t, It>(It);
template uint16_t BinUtils::GetFromBigEndian<uint16_t, It>(It);
template uint32_t BinUtils::GetFromBigEndian<uint32_t, It>(It);
template uint64_t BinUtils::GetFromBigEndian<uint64_t, It>(It);
template void BinUtils::Append<Back, uint16_t>(Back, uint16_t, size_t);
template void BinUtils::Append<Back, uint32_t>(Back, uint32_t, size_t);
template void BinUtils::Append<Back, uint64_t>(Back, uint64_t, size_t);
template void BinUtils::AppendBigEndian<Back, uint16_t>(Back, uint16_t, size_t);
template void BinUtils::AppendBigEndian<Back, uint32_t>(Back, uint32_t, size_t);
template void BinUtils::AppendBigEndian<Back, uint64_t>(Back, uint64_t, size_t);
template void BinUtils::ApplyByteStuffing<Back>(const std::vector<uint8_t>&,
                                                const std::unordered_map<uint8_t, std::vector<uint8_t>>&,
                                                Back);

template class TPriorityQueueSchedule<int, std::less<int>>;
template class TScheduler<int>;
struct TAcc
{
    bool operator()(int& e, TItemAccumulationPolicy policy, std::chrono::milliseconds limit);
    bool operator()(const int& e, TItemAccumulationPolicy policy, std::chrono::milliseconds limit);
};
template void TScheduler<int>::AccumulateNext<TAcc>(std::chrono::steady_clock::time_point, TAcc&, TItemSelectionPolicy);
template void OpenWithException<std::ofstream>(std::ofstream&, const std::string&);
