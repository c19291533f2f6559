/* component shim: seed tree */
#include <stdint.h>
#include "seedtree.h"
void vi_tree(uint8_t *tree, const uint8_t *root, const uint8_t *salt) { generate_seed_tree_from_root(tree, root, salt); }
unsigned vi_path(const uint8_t *tree, const uint8_t *hidden, uint8_t *storage) { return seed_tree_path(tree, hidden, storage); }
unsigned vi_rebuild(uint8_t *tree, const uint8_t *hidden, const uint8_t *stored, const uint8_t *salt)
{ return rebuild_seed_tree_leaves(tree, hidden, stored, salt); }
