#include <adept.h>
