// BTreeSet: a BTreeMap without values
def st(s) = bt(s._treemap)
def sn(s) = if s._treemap.root == nil then 0 else s._treemap.root.tk.gn
def se(s, i) = *s._treemap.root.tk.gs[i]

func BTreeSetNew() @P15
  ensures result._treemap.root == nil && result._treemap.len == 0
func BTreeSet.Len(self) @P15
  requires st(self)
  ensures result == sn(self)
func BTreeSet.IsEmpty(self) @P15
  requires st(self)
  ensures result <==> sn(self) == 0
func BTreeSet.Clear(self) @P15
  requires st(self)
  modifies *self
  ensures st(self) && sn(self) == 0
func BTreeSet.Contains(self, key) @P15
  requires st(self)
  ensures [member] result <==> !(forall p in 0 .. sn(self) :: cmp(key, se(self, p)) != 0)
func BTreeSet.IntoIter(self) @P15
  requires st(self)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [size] len(dyn(result).vec.data) == sn(self)
  ensures [entries] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j] == se(self, j)
