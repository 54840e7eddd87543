// Lets bubble.go declare a function without a body.
