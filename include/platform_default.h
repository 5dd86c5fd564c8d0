#define HAVE_PIPE2 1
#define HAVE_VFORK 1
#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1
