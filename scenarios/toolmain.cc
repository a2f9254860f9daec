// The exclusion graph exporter's own main; the build renames it to toolmain.
#include TOOL_MAIN
