#pragma once
namespace sim::mpi {
void init(int ranks);
int size();
void returned();
void check_quiescent();
void set_state(const char *s);
void meet(int participants = 0); // all (or the first n) ranks meet here (the check's own barrier, no MPI traffic)
} // namespace sim::mpi
