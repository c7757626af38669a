// include in exactly one translation unit of each harness
namespace simros
{
World & world() {static World w; return w;}
BagDisk & disk() {static BagDisk d; return d;}
}
