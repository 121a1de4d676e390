#include <boost/log/stub.h>
