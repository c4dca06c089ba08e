package pgvsym;
import com.google.protobuf.Any;
import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.*;
import io.envoyproxy.pgv.grpc.*;
import io.grpc.*;
import pgvm.idx.*;
/** Histories of a call through the gRPC interceptors against a reference. */
@SuppressWarnings("all")
public final class HistGrpc {
  static final class Bad extends Exception {}

  static boolean wrong(int x) { return x < -5 || x >= 100; }

  static void status(io.grpc.Status s, Metadata trailers) {
    Sym.check(s != null && s.number() == 3, "the status is not INVALID_ARGUMENT");
    Sym.check(s.getDescription() != null && (!Sym.concrete() || s.getDescription().contains(".pgvm.idx.Req.x")), "the description of the status is not the message of the exception");
    Sym.check(trailers != null && trailers.details != null, "the status has no details");
    com.google.rpc.Status d = trailers.details;
    Sym.check(d.getCode() == 3, "the code of the details is not INVALID_ARGUMENT");
    Sym.check(d.getDetailsCount() == 1 && d.getDetails(0).packed instanceof BadRequest, "the details are not one BadRequest");
    BadRequest b = (BadRequest) d.getDetails(0).packed;
    Sym.check(b.getFieldViolationsCount() == 1, "the BadRequest does not hold one violation");
    Sym.check(b.getFieldViolations(0).getField().equals(".pgvm.idx.Req.x"), "the violation does not name the field");
    Sym.check(!Sym.concrete() || b.getFieldViolations(0).getDescription().length() > 0, "the violation has no description");
  }

  /** A server call: closing it twice is an error, as in gRPC. */
  static final class Call extends ServerCall<Req, Object> {
    int closed, requested;
    io.grpc.Status status;
    Metadata trailers;
    public void request(int n) { requested += n; }
    public void sendHeaders(Metadata h) {}
    public void sendMessage(Object m) {}
    public void close(io.grpc.Status s, Metadata t) {
      if (closed > 0) throw new IllegalStateException("call already closed");
      closed++; status = s; trailers = t;
    }
    public boolean isCancelled() { return false; }
    public MethodDescriptor<Req, Object> getMethodDescriptor() { return null; }
  }

  static final class App extends ServerCall.Listener<Req> {
    int messages, halfCloses, cancels, completes, readies;
    Req last;
    @Override public void onMessage(Req m) { messages++; last = m; }
    @Override public void onHalfClose() { halfCloses++; }
    @Override public void onCancel() { cancels++; }
    @Override public void onComplete() { completes++; }
    @Override public void onReady() { readies++; }
  }

  static void server(int n) {
    final Call call = new Call();
    final App app = new App();
    final Metadata headers = new Metadata();
    final int[] started = {0};
    ServerCallHandler<Req, Object> next = new ServerCallHandler<Req, Object>() {
      public ServerCall.Listener<Req> startCall(ServerCall<Req, Object> c, Metadata h) {
        Sym.check(h == headers, "the headers are not passed on");
        started[0]++;
        return app;
      }
    };
    ServerCall.Listener<Req> l = new ValidatingServerInterceptor(new ReflectiveValidatorIndex()).interceptCall(call, headers, next);
    Sym.check(started[0] == 1, "the call is not started once");
    boolean bad = false;
    int messages = 0, halfCloses = 0, cancels = 0, completes = 0, readies = 0;
    boolean half = false;
    for (int i = 0; i < n; i++) {
      int op = Sym.choice(5);
      if (op == 0 && !half) {
        Req m = new Req();
        int x = Sym.any();
        m.f_x = x;
        l.onMessage(m);
        if (wrong(x)) {
          if (!bad) {
            Sym.check(call.closed == 1, "an invalid message does not close the call");
            status(call.status, call.trailers);
          }
          bad = true;
        } else if (!bad) {
          messages++;
          Sym.check(app.last == m, "a valid message is not delivered");
        }
      } else if (op == 1 && !half) {
        half = true;
        l.onHalfClose();
        if (!bad) halfCloses++;
      } else if (op == 2) {
        l.onCancel();
        cancels++;
      } else if (op == 3) {
        l.onComplete();
        completes++;
      } else if (op == 4) {
        l.onReady();
        readies++;
      }
      Sym.check(app.messages == messages, "the messages delivered are not the valid ones before the first invalid one");
      Sym.check(app.halfCloses == halfCloses, "half-close is delivered after an invalid message, or withheld without one");
      Sym.check(app.cancels == cancels && app.completes == completes && app.readies == readies, "cancel, complete or ready events are lost");
      Sym.check(call.closed == (bad ? 1 : 0), "the interceptor closes a call without an invalid message");
    }
  }

  static final class Out extends ClientCall<Req, Object> {
    int sent, halfCloses, cancels, requests, starts;
    Req last;
    public void start(ClientCall.Listener<Object> l, Metadata h) { starts++; }
    public void request(int n) { requests++; }
    public void cancel(String m, Throwable c) { cancels++; }
    public void halfClose() { halfCloses++; }
    public void sendMessage(Req m) { sent++; last = m; }
  }

  static void client(int n) {
    final Out out = new Out();
    final MethodDescriptor method = new MethodDescriptor();
    final CallOptions options = CallOptions.DEFAULT;
    Channel next = new Channel() {
      public <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> m, CallOptions o) {
        Sym.check(m == method && o == options, "the method or its options are not passed on");
        return (ClientCall) out;
      }
      public String authority() { return ""; }
    };
    ClientCall<Req, Object> call = new ValidatingClientInterceptor(new ReflectiveValidatorIndex()).interceptCall(method, options, next);
    int sent = 0, halfCloses = 0, cancels = 0, requests = 0;
    for (int i = 0; i < n; i++) {
      int op = Sym.choice(4);
      if (op == 0) {
        Req m = new Req();
        int x = Sym.any();
        m.f_x = x;
        StatusRuntimeException ex = null;
        try {
          call.sendMessage(m);
        } catch (StatusRuntimeException e) {
          ex = e;
        }
        if (wrong(x)) {
          Sym.check(ex != null, "sending an invalid message does not fail");
          status(ex.getStatus(), ex.getTrailers());
        } else {
          Sym.check(ex == null, "sending a valid message fails");
          sent++;
          Sym.check(out.last == m, "a valid message is not sent");
        }
      } else if (op == 1) {
        call.halfClose();
        halfCloses++;
      } else if (op == 2) {
        call.cancel("x", null);
        cancels++;
      } else {
        call.request(1);
        requests++;
      }
      Sym.check(out.sent == sent, "an invalid message is sent, or a valid one more or less than once");
      Sym.check(out.halfCloses == halfCloses && out.cancels == cancels && out.requests == requests, "other operations are not passed on");
    }
  }
}
