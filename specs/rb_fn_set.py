import rbtree
def build(): return rbtree.build("fn", "set")
