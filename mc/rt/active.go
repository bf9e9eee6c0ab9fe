package rt

// Active tells whether the implementation is instrumented; cmd/instr replaces
// this file.
const Active = false
