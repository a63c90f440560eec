/*
  C21: K21_ASK asks for a passphrase; a[0..5] are the lines typed at its prompts (-1: none):
    end + 8 * phrase + 64 * position + 4096 * signal
  cfg: 0 signals the application handles itself (bits)
*/
enum { K21_ASK = 1 };
enum { E21_NEWLINE, E21_RETURN, E21_EOF, E21_EIO, E21_SIGNAL, E21_WAIT, E21_TWO, E21_AHEAD };
enum { N21_HANDLED = 1 };
#define K21_LINES 6
#define K21_PHRASES 8
#define K21_LENGTHS { 0, 7, 20, 20, 4094, 4095, 4096, 5000 }
#define K21_SIGNALS { SIGTSTP, SIGTTIN, SIGTTOU, SIGALRM, SIGINT, SIGHUP, SIGTERM, SIGPIPE }
