// Stand-in for envire/tools/PlyFile.hpp, whose implementation needs Rock's ply library: declarations only.
#ifndef VC_PLYFILE_HPP
#define VC_PLYFILE_HPP
#include <envire/maps/Pointcloud.hpp>
#include <iosfwd>
#include <string>
namespace envire {
class PlyFile { public: PlyFile(const std::string&) {} bool serialize(Pointcloud*, std::ostream&, bool = true) { return false; } bool unserialize(Pointcloud*, std::istream&) { return false; } };
}
#endif
