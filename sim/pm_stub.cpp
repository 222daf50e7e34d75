// The pipeline manager is not part of this executable: events filters send upstream end here.
#include "sim.h"
#include "PipelineManager.hh"
std::vector<std::pair<int, std::string>> g_upstream;
std::function<void(Event &, int)> g_upstream_hook;
PipelineManager *PipelineManager::getInstance(const unsigned) { return (PipelineManager *)0; }
bool PipelineManager::processFilterEvent(Event e, int fId) { sim::Harness h; g_upstream.push_back({fId, e.getAction()}); if (g_upstream_hook) g_upstream_hook(e, fId); return true; }
