"""C36: no-local and client groups."""
from fvc.spec import *
from route_c import *
spec = Spec("C36", ["subscriptionstore.cpp", "subscription.cpp", "sharedsubscribers.cpp", "types.cpp", "session.cpp"], harness="c36.cpp", harness_secs=10, trusted=["SharedSubscribers::getNext/getFirst return a member of the group (C10)"])
@spec.job("SubscriptionStore::publishNonRecursively", houdini_ms=60)
def _(J): pub_nr(J, ("C36",))
@spec.job("SubscriptionStore::queuePacketAtSubscribers")
def _(J): queue_at(J)
