// Threads of the debugger under the checker's control (see fib.h).  The headers of the parser library are included first, with
// the real std::atomic; an atomic defined in the debugger gives its address as that of a real one.
#pragma once
#include "fib_core.h"

#include "analyzer.h"
#include "context/hlasm_context.h"
#include "debugging/debug_lib_provider.h"
#include "debugging/debug_types.h"
#include "debugging/macro_param_variable.h"
#include "debugging/ordinary_symbol_variable.h"
#include "debugging/set_symbol_variable.h"
#include "debugging/variable.h"
#include "workspaces/file_manager.h"
#include "workspaces/workspace.h"

#define SX_IN_LIBRARY
#include "fib_names.h"
