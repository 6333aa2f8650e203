// Stand-in for the header that configure generates from resources/version.h.in (it holds the version number only).
#ifndef NUSQUIDS_VERSION_HPP
#define NUSQUIDS_VERSION_HPP
#define NUSQUIDS_VERSION 0
#define NUSQUIDS_VERSION_STR "verification build"
#endif
