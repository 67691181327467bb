/* random pauses around the MPI calls of one rank: other message timings, same messages */
#include <mpi.h>
#include <stdlib.h>
#include <unistd.h>
static unsigned s; static int on, n;
static void p(void) { if (!on) { char* e = getenv("VERIF_DELAY"); char* r = getenv("OMPI_COMM_WORLD_RANK"); s = (e ? atoi(e) : 1) * 7919u + (r ? atoi(r) : 0) * 104729u + 1; on = 1; } s = s * 1664525u + 1013904223u; if ((s >> 16) % 4 == 0 && n < 400) { ++n; usleep((s >> 8) % 1500); } }
#define W(ret, name, args, call) ret name args { p(); int r = P##name call; p(); return r; }
W(int, MPI_Send, (const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m), (b, c, t, d, g, m))
W(int, MPI_Isend, (const void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request* q), (b, c, t, d, g, m, q))
W(int, MPI_Recv, (void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Status* q), (b, c, t, d, g, m, q))
W(int, MPI_Irecv, (void* b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request* q), (b, c, t, d, g, m, q))
W(int, MPI_Allgather, (const void* a, int c, MPI_Datatype t, void* b, int d, MPI_Datatype u, MPI_Comm m), (a, c, t, b, d, u, m))
W(int, MPI_Allreduce, (const void* a, void* b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm m), (a, b, c, t, o, m))
W(int, MPI_Barrier, (MPI_Comm m), (m))
W(int, MPI_Bcast, (void* b, int c, MPI_Datatype t, int r0, MPI_Comm m), (b, c, t, r0, m))
W(int, MPI_Iallreduce, (const void* a, void* b, int c, MPI_Datatype t, MPI_Op o, MPI_Comm m, MPI_Request* q), (a, b, c, t, o, m, q))
W(int, MPI_Waitall, (int c, MPI_Request q[], MPI_Status* st), (c, q, st))
W(int, MPI_Wait, (MPI_Request* q, MPI_Status* st), (q, st))
