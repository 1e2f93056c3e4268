pub struct Term;
