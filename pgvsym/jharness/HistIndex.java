package pgvsym;
import io.envoyproxy.pgv.*;
import pgvm.idx.*;
/** Histories of the validator indexes against a reference. */
@SuppressWarnings("all")
public final class HistIndex {
  static final class A {}
  static final class B {}

  int calls, lastId, fbCalls, fbKind;
  boolean fbReject, fbAsked, reject0;
  Object lastProto, fbProto;
  ValidatorIndex lastIndex;
  Class fbClass;
  final boolean[] asked = new boolean[16], rej = new boolean[16];

  /** Whether validator k rejects: decided when it is first asked. */
  boolean rejects(int k) {
    if (!asked[k]) { asked[k] = true; rej[k] = Sym.choice(2) == 1; }
    return rej[k];
  }

  final class Impl implements ValidatorImpl<Object> {
    final int id;
    Impl(int id) { this.id = id; }
    public void assertValid(Object proto, ValidatorIndex index) throws ValidationException {
      calls++; lastId = id; lastProto = proto; lastIndex = index;
      if (rejects(id)) throw new ValidationException("f", "v", "r");
    }
  }

  final class FallbackValidator implements Validator {
    final Class c;
    FallbackValidator(Class c) { this.c = c; }
    public void assertValid(Object proto) throws ValidationException {
      fbCalls++; fbProto = proto; fbClass = c;
      if (rejects(15)) throw new ValidationException("f", "v", "r");
    }
  }

  final class Fallback implements ValidatorIndex {
    public <T> Validator<T> validatorFor(Class c) { return new FallbackValidator(c); }
  }

  ValidatorIndex fallback() {
    if (fbKind == 1) return new Fallback();
    return fbKind == 2 ? ValidatorIndex.ALWAYS_INVALID : ValidatorIndex.ALWAYS_VALID;
  }

  /** Applies v to proto: whether it was rejected. */
  int style = -1;
  boolean rejected(Validator v, Object proto) {
    calls = 0;
    fbCalls = 0;
    boolean threw = false;
    if (style < 0) style = Sym.choice(2);
    if (style == 0) {
      try {
        v.assertValid(proto);
      } catch (ValidationException e) {
        threw = true;
      }
    } else {
      threw = !v.isValid(proto);
    }
    return threw;
  }

  void fellBack(boolean threw, Object proto, Class c) {
    Sym.check(calls == 0, "a validator of another class was applied");
    if (fbKind == 1) {
      Sym.check(fbCalls == 1 && fbProto == proto && fbClass == c, "the fallback index was not asked for the class and applied to the message");
      Sym.check(threw == rejects(15), "the verdict is not that of the fallback validator");
    } else {
      Sym.check(threw == (fbKind == 2), "the verdict is not that of the fallback validator");
    }
  }

  static void explicit(int n) {
    HistIndex h = new HistIndex();
    h.fbKind = Sym.choice(4);
    ExplicitValidatorIndex ix = h.fbKind == 0 ? new ExplicitValidatorIndex() : new ExplicitValidatorIndex(h.fallback());
    Object[] objs = {new A(), new B()};
    Class[] cls = {A.class, B.class};
    int[] reg = {-1, -1};
    Validator[] kept = {null, null};
    for (int i = 0; i < n; i++) {
      // the last operation is a use, the first one on the first class
      int op = i == n - 1 ? 2 : Sym.choice(3), c = i == 0 ? 0 : Sym.choice(2);
      if (op == 0) {
        Sym.check(ix.add(cls[c], h.new Impl(i)) == ix, "add does not return the index");
        reg[c] = i;
      } else if (op == 1) {
        kept[c] = ix.validatorFor(cls[c]);
      } else {
        Validator v = kept[c];
        if (v == null) v = ix.validatorFor(objs[c]);
        boolean threw = h.rejected(v, objs[c]);
        if (reg[c] >= 0) {
          Sym.check(h.fbCalls == 0, "the fallback was applied to a known class");
          Sym.check(h.calls == 1 && h.lastId == reg[c], "the validator applied is not the last one added for the class");
          Sym.check(h.lastProto == objs[c], "another message was validated");
          Sym.check(h.lastIndex == ix, "the validator was not given the index");
          Sym.check(threw == h.rejects(reg[c]), "the verdict is not that of the validator");
        } else {
          h.fellBack(threw, objs[c], cls[c]);
        }
      }
    }
  }

  /** Classes of generated messages; 7.. have no validator. */
  static Object make(int c, int x) {
    switch (c) {
      case 0: { Req m = new Req(); m.f_x = x; return m; }
      case 1: { Req.Inner m = new Req.Inner(); m.f_y = x; return m; }
      case 2: { Outer.One m = new Outer.One(); m.f_x = x; return m; }
      case 3: { Off m = new Off(); m.f_x = x; return m; }
      case 4: { Req.Inner.Deep m = new Req.Inner.Deep(); m.f_z = x; return m; }
      case 5: return new Skip();
      case 6: return new Outer.Gone();
      default: return new A();
    }
  }

  static boolean wrong(int c, int x) {
    switch (c) {
      case 0: return x < -5 || x >= 100;
      case 1: return x == 7;
      case 2: return x > 3;
      case 4: return x != 9;
      default: return false;
    }
  }

  static void reflective(int n) {
    HistIndex h = new HistIndex();
    h.fbKind = Sym.choice(4);
    ReflectiveValidatorIndex ix = h.fbKind == 0 ? new ReflectiveValidatorIndex() : new ReflectiveValidatorIndex(h.fallback());
    for (int i = 0; i < n; i++) {
      int c = Sym.choice(8), x = Sym.any();
      Object m = make(c, x);
      Validator v = Sym.choice(2) == 0 ? ix.validatorFor(m) : ix.validatorFor(m.getClass());
      boolean threw = h.rejected(v, m);
      if (c < 5) {
        Sym.check(h.fbCalls == 0, "the fallback was applied to a class with a generated validator");
        Sym.check(threw == wrong(c, x), "the verdict is not that of the generated validator");
      } else {
        h.fellBack(threw, m, m.getClass());
      }
    }
    // embedded messages: validated through the same index
    Holder b = new Holder();
    b.f_req = new Req();
    int x = Sym.any();
    b.f_req.f_x = x;
    Validator v = ix.validatorFor(b);
    Sym.check(h.rejected(v, b) == wrong(0, x), "the embedded message was not validated by its generated validator");
    Holder g = new Holder();
    g.f_skip = new Skip();
    h.fellBack(h.rejected(ix.validatorFor(g), g), g.f_skip, Skip.class);
  }
}
