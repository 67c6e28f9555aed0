// Minimal stand-in for OpenOrbitalOptimizer (not available offline): the type
// vocabulary plus a small deterministic SCF (Roothaan + DIIS, Aufbau filling),
// enough to drive the Fock builders of HelFEM.
#ifndef VERIF_OOO_SHIM
#define VERIF_OOO_SHIM
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <stdexcept>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace OpenOrbitalOptimizer {
  template<class T> using MatT = Eigen::Matrix<T,Eigen::Dynamic,Eigen::Dynamic>;
  template<class T> using VecT = Eigen::Matrix<T,Eigen::Dynamic,1>;
  typedef Eigen::VectorXi IndexVector;
  template<class T> using Orbitals = std::vector<MatT<T>>;
  template<class T> using OrbitalOccupations = std::vector<VecT<T>>;
  template<class T> using OrbitalEnergies = std::vector<VecT<T>>;
  template<class T> using FockMatrix = std::vector<MatT<T>>;
  template<class T,class B> using DensityMatrix = std::pair<Orbitals<T>,OrbitalOccupations<B>>;
  template<class T,class B> using FockBuilderReturn = std::pair<B,FockMatrix<T>>;
  template<class T,class B> using FockBuilder = std::function<FockBuilderReturn<T,B>(const DensityMatrix<T,B>&)>;
  template<class T,class B> using BatchedFockBuilder = std::function<std::vector<FockBuilderReturn<T,B>>(const std::vector<DensityMatrix<T,B>>&)>;
  // Observation hook: everything the code under test hands over.
  struct Record {
    IndexVector nblk; VecT<double> maxocc, npart, fixed; std::vector<std::string> desc;
    FockBuilder<double,double> fb; BatchedFockBuilder<double,double> bfb;
    FockMatrix<double> guess; Orbitals<double> C; OrbitalOccupations<double> n; bool from_fock=false;
    std::map<std::string,std::string> settings;
    // after the run
    double energy=0; bool converged=false; int iterations=0; FockMatrix<double> F;
  };
  struct Probe { std::function<void(Record&)> on_run; Record last; int maxiter=200; double conv=1e-8; };
  inline Probe & probe() { static Probe p; return p; }
  template<class T,class B> class SCFSolver {
    IndexVector nblk_; VecT<B> maxocc_, npart_; FockBuilder<T,B> fb_; std::vector<std::string> desc_;
    BatchedFockBuilder<T,B> bfb_;
    Orbitals<T> C_; OrbitalOccupations<B> n_; FockMatrix<T> F_; VecT<B> fixed_; bool has_fixed_=false; B E_=0;
    OrbitalEnergies<B> eps_; FockMatrix<T> guess_; bool ff_=false; std::map<std::string,std::string> set_;
    static std::string str(const std::string&v){ return v; }
    template<class X> static std::string str(const X&v){ std::ostringstream o; o.precision(17); o<<v; return o.str(); }
    void diag(const FockMatrix<T>&F) {
      C_.resize(F.size()); eps_.resize(F.size());
      for(size_t b=0;b<F.size();b++) { if(F[b].size()==0) { C_[b]=MatT<T>::Zero(0,0); eps_[b]=VecT<B>::Zero(0); continue; }
        Eigen::SelfAdjointEigenSolver<MatT<T>> es(MatT<T>(0.5*(F[b]+F[b].transpose()))); C_[b]=es.eigenvectors(); eps_[b]=es.eigenvalues(); }
    }
    void aufbau() {
      n_.resize(C_.size()); for(size_t b=0;b<C_.size();b++) n_[b]=VecT<B>::Zero(C_[b].cols());
      size_t off=0;
      for(long t=0;t<nblk_.size();t++) {
        if(has_fixed_) { for(int k=0;k<nblk_(t);k++) { B left=fixed_(off+k); for(long i=0;i<n_[off+k].size()&&left>0;i++) { B q=std::min(left,maxocc_(off+k)); n_[off+k](i)=q; left-=q; } } }
        else {
          std::vector<std::pair<B,std::pair<size_t,long>>> lv;
          for(int k=0;k<nblk_(t);k++) for(long i=0;i<eps_[off+k].size();i++) lv.push_back({eps_[off+k](i),{off+k,i}});
          std::sort(lv.begin(),lv.end()); B left=npart_(t);
          // spread equally over (near-)degenerate levels
          for(size_t i=0;i<lv.size()&&left>1e-14;) { size_t j=i; B cap=0; while(j<lv.size()&&lv[j].first-lv[i].first<1e-6) { cap+=maxocc_(lv[j].second.first); j++; }
            B f=std::min<B>(1,left/cap); for(size_t k=i;k<j;k++) n_[lv[k].second.first](lv[k].second.second)=f*maxocc_(lv[k].second.first); left-=f*cap; i=j; }
        }
        off+=nblk_(t);
      }
    }
  public:
    SCFSolver(const IndexVector&nb,const VecT<B>&mo,const VecT<B>&np,const FockBuilder<T,B>&fb,const std::vector<std::string>&d):nblk_(nb),maxocc_(mo),npart_(np),fb_(fb),desc_(d){}
    template<class X> void set(const std::string&k,const X&v) { set_[k]=str(v); }
    void set_batched_fock_builder(const BatchedFockBuilder<T,B>&b) { bfb_=b; }
    void fixed_number_of_particles_per_block(const VecT<B>&f) { fixed_=f; has_fixed_=true; }
    void initialize_with_fock(const FockMatrix<T>&F) { guess_=F; ff_=true; diag(F); aufbau(); }
    void initialize_with_orbitals(const Orbitals<T>&C,const OrbitalOccupations<B>&n) { C_=C; n_=n; }
    void print_citation() const {}
    Orbitals<T> get_orbitals() const { return C_; }
    OrbitalOccupations<B> get_orbital_occupations() const { return n_; }
    FockMatrix<T> get_fock_matrix() const { return F_; }
    B get_energy() const { return E_; }
    void run() {
      Record r0; r0.nblk=nblk_; r0.maxocc=maxocc_; r0.npart=npart_; if(has_fixed_) r0.fixed=fixed_; r0.desc=desc_; r0.fb=fb_; r0.bfb=bfb_; r0.guess=guess_; r0.C=C_; r0.n=n_; r0.from_fock=ff_; r0.settings=set_;
      probe().last=r0;
      if(probe().on_run) probe().on_run(r0);
      bool conv=false; int nit=0;
      std::vector<FockMatrix<T>> Fs; std::vector<std::vector<MatT<T>>> es;
      for(int it=0;it<probe().maxiter;it++) {
        auto r=fb_({C_,n_}); E_=r.first; F_=r.second;
        std::vector<MatT<T>> e(F_.size()); B emax=0;
        for(size_t b=0;b<F_.size();b++) { if(!F_[b].size()) continue; MatT<T> P=C_[b]*n_[b].asDiagonal()*C_[b].transpose(); e[b]=F_[b]*P-P*F_[b]; if(e[b].size()) emax=std::max<B>(emax,e[b].cwiseAbs().maxCoeff()); }
        Fs.push_back(F_); es.push_back(e); if(Fs.size()>8) { Fs.erase(Fs.begin()); es.erase(es.begin()); }
        nit=it+1;
        if(emax<probe().conv) { conv=true; break; }
        long m=Fs.size(); MatT<B> A=MatT<B>::Zero(m+1,m+1); VecT<B> rhs=VecT<B>::Zero(m+1); rhs(m)=1;
        for(long i=0;i<m;i++) { A(i,m)=A(m,i)=1; for(long j=0;j<m;j++) for(size_t b=0;b<F_.size();b++) if(F_[b].size()) A(i,j)+=(es[i][b].transpose()*es[j][b]).trace(); }
        { B sc=0; for(long i=0;i<m;i++) sc=std::max(sc,A(i,i)); if(sc>0) A.topLeftCorner(m,m)/=sc; } VecT<B> c=A.fullPivLu().solve(rhs);
        FockMatrix<T> Fx(F_.size()); for(size_t b=0;b<F_.size();b++) { Fx[b]=MatT<T>::Zero(F_[b].rows(),F_[b].cols()); for(long i=0;i<m;i++) Fx[b]+=c(i)*Fs[i][b]; }
        diag(Fx); aufbau();
      }
      Record&l=probe().last; l.energy=E_; l.converged=conv; l.iterations=nit; l.F=F_; l.C=C_; l.n=n_;
    }
  };
}
#endif
