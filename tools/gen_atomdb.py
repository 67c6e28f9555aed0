#!/usr/bin/env python3
"""Synthetic stand-in for the generated atomdb_data.cpp (absent from this copy of
the repository): small deterministic records, enough to exercise atomdb.cpp."""
import math,sys
max_Z,lmax,nelem,nnodes,primbas,nquad=4,2,3,5,4,40
bval=[0.0,0.7,2.0,6.0]
Nbf=nelem*(nnodes-1)+1-2
out=[];occ=[];coef=[];norb=[];offs=[]
n=0
for Z in range(1,max_Z+1):
    no=[];of=[]
    for l in range(lmax+1):
        k={1:[1,0,0],2:[2,0,0],3:[2,1,0],4:[2,1,1]}[Z][l]
        no.append(k);of.append(n)
        for i in range(k):
            occ.append({1:[1.0],2:[1.5,0.5],3:[2.0,0.75,0.25],4:[2.0,1.25,0.5,0.25]}[Z][sum(no[:-1])+i])
            # smooth decaying coefficients, not normalised (the code must cope with any record)
            for j in range(Nbf):
                coef.append(math.exp(-0.35*Z**0.5*j)*(0.6+0.3*math.cos(1.7*(i+1)*j+0.4*l+Z))*(0.8 if i else 1.0))
            n+=1
    no.append(0);of.append(n)
    norb.append(no);offs.append(of)
w=sys.stdout.write
w("namespace helfem { namespace atomdb { namespace data {\n")
for k,v in dict(max_Z=max_Z,lmax=lmax,Nbf=Nbf,nelem=nelem,nnodes=nnodes,primbas=primbas,nquad=nquad,norbital=n).items():
    w("extern const int %s; const int %s=%d;\n"%(k,k,v))
w("extern const double bval[]; const double bval[]={%s};\n"%",".join(map(repr,bval)))
w("extern const int norb[][4]; const int norb[][4]={%s};\n"%",".join("{%s}"%",".join(map(str,x)) for x in norb))
w("extern const int offset[][4]; const int offset[][4]={%s};\n"%",".join("{%s}"%",".join(map(str,x)) for x in offs))
w("extern const double occupations[]; const double occupations[]={%s};\n"%",".join(map(repr,occ)))
w("extern const double coefficients[]; const double coefficients[]={%s};\n"%",".join(map(repr,coef)))
w("}}}\n")
