// Scenarios about the catapult component: tracing sessions, the web server (on a stub of seasocks) and the recorder.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_catapult/catapult_server.h>
#include <seasocks/Server.h>
#include <deque>
#include "common.h"
#include "scriptsource.h"
#include "trace_session.h"

using namespace scalopus;
using nlohmann::json;

#include "frontmodel.inc"
#include "webstub.inc"
#include "catapult_session.inc"
#include "catapult_recorder.inc"
#include "catapult_web.inc"
