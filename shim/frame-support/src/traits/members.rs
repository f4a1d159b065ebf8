pub trait ChangeMembers<A: Clone + Ord> { fn change_members_sorted(i: &[A], o: &[A], n: &[A]); } impl<A: Clone + Ord> ChangeMembers<A> for () { fn change_members_sorted(_: &[A], _: &[A], _: &[A]) {} }
