// The declaration of testlogSetLogger has no body.
