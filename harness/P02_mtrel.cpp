// vs: nativeonly
// vs: nlink src/common/GCommonHelperFunctions.cpp src/courtier/GCourtierEnums.cpp src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GThreadPool.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp src/common/GPlotDesigner.cpp
// vs: bound up to 11 work items, 3 threads; random schedules
// vs: flag -UDEBUG
#include "mt_executor.hpp"
VS_ENTRY(multi_threaded_release) { run_mt(); }
