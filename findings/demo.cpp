// Demonstrations of the defects that the "fix:" commits in /repo repair (run by findings/run.sh against two trees;
// not a check).  usage: demo CASE ; exit 0 = behaves as the property says
#include <cnn_from_scratch/ModelDescription.h>
#include <fstream>
#include <new>
using namespace my_cnn; using M = SimpleMatrix<double>;
static bool near(double a, double b){return std::abs(a-b) < 1e-9;}
static M fill(dim3 d, double s){ M m(d); int i=0; for (auto& v : m) v = std::sin(s + 1.7*i++); return m; }
#define THROWS(e) [&]{ try{ e; }catch(...){ return true; } return false; }()
// numeric directional derivative check of a layer
template<class F> static double num(F f, double& v){ const double h=1e-5, o=v; v=o+h; double a=f(); v=o-h; double b=f(); v=o; return (a-b)/(2*h); }
int main(int argc, char** argv){
  std::string c = argv[1]; bool ok = true;
  if (c=="dim"){ alignas(dim3) unsigned char buf[sizeof(dim3)]; memset(buf, 0x7f, sizeof buf); dim3* d = new (buf) dim3(1L, 2L); ok = d->z == 0; }
  else if (c=="view"){ M m({3,3,3}); ok = THROWS(m.slice(-1)) && THROWS(m.subMatView({0,0,0},{1,1,1}).at(dim3(-1,0,0))); }
  else if (c=="dot"){ M a({3,1,1}, 0.5), b({3,1,1}, 0.5); ok = near(dot(a,b), 0.75); }
  else if (c=="mean"){ SimpleMatrix<int> a({2,1,1}); a.setEntries({-4,-2}); ok = mean(a) == -3; }
  else if (c=="alias"){ M a({2,2,1},{1,2,3,4}); a = transpose(a); ok = near(a(0,1),3) && near(a(1,0),2); }
  else if (c=="print"){ std::cout.precision(7); auto f = std::cout.flags(); std::cout.setf(std::ios::scientific); auto g=std::cout.flags(); std::stringstream ss; ss << M({1,1,1},{0.123456}); ok = std::cout.flags()==g && ss.str().find("0.12")!=std::string::npos && ss.str().find("0.1234")==std::string::npos; std::cout.flags(f);}
  else if (c=="rot2"){ M a({2,3,1},{1,2,3,4,5,6}); try{ M b = rotate<2>(a); ok = near(b(0,0),6); }catch(...){ ok=false; } }
  else if (c=="stride"){ Kernel K({2,2,1},1,2); M x = fill({5,4,1},1); M o = K.propagateForward(M(x)); ok = o.dim()==dim3(2,2,1);
      if (ok) for (int i=0;i<2;i++) for (int j=0;j<2;j++){ double s=K.biases[0]; for(int a=0;a<2;a++)for(int b=0;b<2;b++) s+=K.weights(a,b)*x(2*i+a,2*j+b); ok = ok && near(s,o(i,j)); } }
  else if (c=="stridegrad" || c=="nonsquare"){ int s = c=="stridegrad" ? 2 : 1; try{ Kernel K({2,3,2},2,s); M x = fill({5,6,2},1); M G = fill(K.propagateForward(M(x)).dim(), 3); K.setBatchSize(1); M dx = K.propagateBackward(x, G, G, 0, false); M dw = K.getdLdW(x,G);
      auto f=[&]{ M o=K.propagateForward(M(x)); double r=0; for (size_t i=0;i<o.size();i++) r+=o[i]*G[i]; return r; };
      for (size_t i=0;i<x.size();i++) ok = ok && std::abs(num(f,x[i])-dx[i])<1e-6; for (size_t i=0;i<dw.size();i++) ok = ok && std::abs(num(f,K.weights[i])-dw[i])<1e-6; }catch(std::exception& e){ ok=false; } }
  else if (c=="kernelstrideio"){ Kernel K({2,2,1},1,2), L({2,2,1},1,1); std::stringstream ss(K.serialize()); L.deserialize(ss); ok = L.stride==2; }
  else if (c=="small"){ Pooling P({3,3},{1,1},MAX); Kernel K({3,3,1},1,1); ok=false; try{ P.propagateForward(M({2,2,1})); }catch(ModelLayerException&){ ok=true; }catch(...){} if (ok){ ok=false; try{ K.propagateForward(M({2,2,1})); }catch(ModelLayerException&){ ok=true; }catch(...){} } }
  else if (c=="actgrad"){ Activation A(SIGMOID); M x({1,1,1},{0.7}), g({1,1,1},{1.0}); M z=A.propagateForward(M(x)); M d=A.propagateBackward(x,z,g,0,false); double s=1/(1+std::exp(-0.7)); ok = near(d[0], s*(1-s)); }
  else if (c=="actio"){ Activation A(RELU), B(LINEAR); std::stringstream ss(A.serialize()); B.deserialize(ss); ok = near(B.propagateForward(M({1,1,1},{-2.0}))[0], 0); }
  else if (c=="poolio"){ Pooling P({2,2},{1,1}), Q({1,1},{5,5}); std::stringstream ss(P.serialize()); Q.deserialize(ss); ok = Q.propagateForward(M({3,3,1})).dim()==dim3(2,2,1); }
  else if (c=="connload"){ ConnectedLayer C(2), D(0); M x=fill({2,2,1},1); C.propagateForward(M(x)); std::stringstream ss(C.serialize()); D.deserialize(ss); D.setBatchSize(1); M g=fill({2,1,1},2); try{ ok = D.propagateBackward(x,g,g,0,false).dim()==dim3(2,2,1); }catch(...){ ok=false; } }
  else if (c=="softmaxslot"){
    #ifdef FIXED
    Softmax S(3); S.setBatchSize(2); M o({3,1,1},{0.2,0.3,0.5}); S.assignTrueLabel(0,0); S.assignTrueLabel(1,1); ok = near(S.propagateBackward(o,o,o,0,false)[0], -0.8) && near(S.propagateBackward(o,o,o,1,false)[1],-0.7);
    #else
    ok = false;  // one label shared by all samples of a batch: there is no way to give each its own
    #endif
  }
  else if (c=="batch"){ ConnectedLayer C(1); M x({1,1,1},{1.0}), g({1,1,1},{1.0}); C.propagateForward(M(x)); C.setBatchSize(2); double w=C.weights[0]; try{ C.propagateBackward(x,g,g,0,true); C.applyBatch(0.5); ok = near(C.weights[0], w-0.5); C.applyBatch(0.5); ok = ok && near(C.weights[0], w-0.5);}catch(...){ ok=false; } }
  else if (c=="badlabel"){ ModelDescription<double,int> m; m.setOutputLabels({1,2}); auto r=m.forwardPropagation(M({2,1,1},{1.0,2.0})); ok = THROWS(m.assignLoss(r, 7)); }
  else if (c=="expect"){ std::stringstream ss("x abc\n"); ok = THROWS(serialization::expect<int>(ss,"x")); }
  else if (c=="empty"){ M m({0,4,1}); int n=0; for (auto it=m.begin(); it!=m.end() && n<3; ++it) n++; M b({4,4,1}); auto v=b.subMatView({0,0,0},{0,4,1}); for (auto it=v.begin(); it!=v.end() && n<3; ++it) n++; ok = n==0; }
  else if (c=="savefail"){ ModelDescription<double,int> m; m.setOutputLabels({1}); ok = !m.saveModel("/nonexistent_dir/x"); }
  #ifdef FIXED
  else if (c=="abs"){ M m({1,1,1},{-2.0}); ok = near(m.abs()[0],2); }
  else if (c=="model"){ std::string fn=argv[2]; ModelDescription<float,std::string> m,n,q; m.addKernel({2,2,1},1); m.addActivation(SIGMOID); m.addPooling({2,2},{1,1},AVG); m.addConnectedLayer(2); m.setOutputLabels({"hot dog","b"});
      SimpleMatrix<float> x({4,4,1},0.5f); auto a=m.forwardPropagation(x); ok = m.saveModel(fn) && n.loadModel(fn) && n.layers.size()==5 && n.output_labels==m.output_labels; if (ok){ auto b=n.forwardPropagation(x); ok = std::abs(a.confidence-b.confidence)<1e-4; }
      ok = ok && !q.loadModel(fn+".missing"); std::ofstream(fn) << "(0) ----------\nKernel\nx 1\n"; ModelDescription<float,std::string> r; ok = ok && !r.loadModel(fn); }
  #endif
  else return 3;
  return !ok;
}
