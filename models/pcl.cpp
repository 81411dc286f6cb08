// Out-of-line parts of PCL the code under test reaches (diagnostics only); native replay uses the real library.
#include <pcl/console/print.h>
namespace pcl { namespace console {
bool isVerbosityLevelEnabled(VERBOSITY_LEVEL) { return false; }
void print(VERBOSITY_LEVEL, const char*, ...) {}
void print(VERBOSITY_LEVEL, FILE*, const char*, ...) {}
} }
