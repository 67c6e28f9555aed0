// The spherically averaged SCF needs a library that is not installed; linked code only refers to it.
namespace helfem { namespace sadatom { namespace scf { AtomicSCFResult run_atomic_scf(const AtomicSCFOptions&){ throw std::logic_error("no SCF driver in the sandbox"); } } } }
