// The server's own main; the build renames it to webmain.
#include WEB_MAIN
