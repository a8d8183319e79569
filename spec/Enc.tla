--------------------------------- MODULE Enc ---------------------------------
EXTENDS EncCore, TraceLib
V(s, e) ==
  CASE e.op = "encode" ->
         C("supported-size", Supported(e.fam, e.w) /\ Supported(e.fam, e.h))
         \cup C("mean-shape", e.mean = <<e.n, e.z>>)
         \cup C("log-variance-shape", e.logvar = <<e.n, e.z>>)
         \cup C("samples-independent", e.indep)
         \cup C("every-parameter-trained", e.allgrad)
         \cup C("depends-on-the-image", e.sens)
    [] e.op = "decode" ->
         C("image-shape-restored",
           e.shape = <<e.n, Channels(e.gray), e.w, e.h>>)
         \cup C("values-in-unit-interval", e.unit)
         \cup C("samples-independent", e.indep)
         \cup C("every-parameter-trained", e.allgrad)
         \cup C("depends-on-the-latent", e.sens)
    [] e.op = "split" ->   \* last layer's outputs: first the means
         C("mean-is-the-first-half", VNear(e.mean, SubSeq(e.out, 1, e.z)))
         \cup C("log-variance-is-the-second-half",
                VNear(e.logvar, SubSeq(e.out, e.z + 1, 2 * e.z)))
    [] e.op = "layout" ->  \* channel-major images, logistic output
         C("decoded-layout-and-logistic",
           \A c \in 1..Len(e.img) : \A a \in 1..e.w : \A b \in 1..e.h :
             NearT(e.img[c][a][b], e.p[((c - 1) * e.w + a - 1) * e.h + b], 3))
    [] e.op = "raised" -> {"raised-on-supported-size"}
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================
