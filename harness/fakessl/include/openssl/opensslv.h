/* Stand-in so that openssl-sys's build script is satisfied without compiling OpenSSL:
   Kani never links, and no harness reaches TLS code. Native replays build the real one. */
#define OPENSSL_VERSION_NUMBER 0x30000000L
#define OPENSSL_VERSION_TEXT "OpenSSL 3.0.0"
