// What the graphical client includes as <libcards.h>, taken from the sources instead of the
// header their build concatenates (which may be older than the sources).
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "define.h"
#include "pkgadd.h"
#include "pkgrm.h"
#include "pkgrepo.h"
#include "cache.h"
#include "sync.h"
#include "lock.h"
