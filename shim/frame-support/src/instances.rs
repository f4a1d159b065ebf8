macro_rules! inst { ($($n:ident $i:expr),*) => { $( #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n; impl crate::traits::Instance for $n { const PREFIX: &'static str = stringify!($n); const INDEX: u8 = $i; } )* } }
inst!(Instance1 1, Instance2 2, Instance3 3, Instance4 4);
