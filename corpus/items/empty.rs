fn empty() {}
