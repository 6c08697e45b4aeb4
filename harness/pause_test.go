package harness

// Messages whose accessors give way to other goroutines: they are what the
// routers and the session call in the middle of handling a message, so the
// schedules that matter come up far more often.

import (
	"runtime"
	"time"

	"github.com/xconnio/wampproto-go/messages"
)

type pause int

func (p pause) hit() {
	switch p {
	case 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < 8; i++ {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Microsecond)
	}
}

// slow gives a message pausing accessors.
func slow(m messages.Message, p pause) messages.Message {
	if p == 0 {
		return m
	}
	switch x := m.(type) {
	case *messages.Call:
		return messages.NewCallWithFields(&slowCall{x.CallFields, p})
	case *messages.Yield:
		return messages.NewYieldWithFields(&slowYield{x.YieldFields, p})
	case *messages.Register:
		return messages.NewRegisterWithFields(&slowRegister{x.RegisterFields, p})
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(&slowUnregister{x.UnregisterFields, p})
	case *messages.Error:
		return messages.NewErrorWithFields(&slowError{x.ErrorFields, p})
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(&slowSubscribe{x.SubscribeFields, p})
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(&slowUnsubscribe{x.UnsubscribeFields, p})
	case *messages.Publish:
		return messages.NewPublishWithFields(&slowPublish{x.PublishFields, p})
	case *messages.Result:
		return messages.NewResultWithFields(&slowResult{x.ResultFields, p})
	case *messages.Registered:
		return messages.NewRegisteredWithFields(&slowRegistered{x.RegisteredFields, p})
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(&slowUnregistered{x.UnregisteredFields, p})
	case *messages.Invocation:
		return messages.NewInvocationWithFields(&slowInvocation{x.InvocationFields, p})
	case *messages.Published:
		return messages.NewPublishedWithFields(&slowPublished{x.PublishedFields, p})
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(&slowSubscribed{x.SubscribedFields, p})
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(&slowUnsubscribed{x.UnsubscribedFields, p})
	case *messages.Event:
		return messages.NewEventWithFields(&slowEvent{x.EventFields, p})
	}
	return m
}

type slowCall struct {
	messages.CallFields
	p pause
}

func (s *slowCall) RequestID() uint64       { s.p.hit(); return s.CallFields.RequestID() }
func (s *slowCall) Options() map[string]any { s.p.hit(); return s.CallFields.Options() }
func (s *slowCall) Procedure() string       { s.p.hit(); return s.CallFields.Procedure() }
func (s *slowCall) Args() []any             { s.p.hit(); return s.CallFields.Args() }

type slowYield struct {
	messages.YieldFields
	p pause
}

func (s *slowYield) RequestID() uint64       { s.p.hit(); return s.YieldFields.RequestID() }
func (s *slowYield) Options() map[string]any { s.p.hit(); return s.YieldFields.Options() }
func (s *slowYield) Args() []any             { s.p.hit(); return s.YieldFields.Args() }

type slowRegister struct {
	messages.RegisterFields
	p pause
}

func (s *slowRegister) RequestID() uint64       { s.p.hit(); return s.RegisterFields.RequestID() }
func (s *slowRegister) Options() map[string]any { s.p.hit(); return s.RegisterFields.Options() }
func (s *slowRegister) Procedure() string       { s.p.hit(); return s.RegisterFields.Procedure() }

type slowUnregister struct {
	messages.UnregisterFields
	p pause
}

func (s *slowUnregister) RequestID() uint64 { s.p.hit(); return s.UnregisterFields.RequestID() }
func (s *slowUnregister) RegistrationID() uint64 {
	s.p.hit()
	return s.UnregisterFields.RegistrationID()
}

type slowError struct {
	messages.ErrorFields
	p pause
}

func (s *slowError) RequestID() uint64   { s.p.hit(); return s.ErrorFields.RequestID() }
func (s *slowError) MessageType() uint64 { s.p.hit(); return s.ErrorFields.MessageType() }
func (s *slowError) Args() []any         { s.p.hit(); return s.ErrorFields.Args() }

type slowSubscribe struct {
	messages.SubscribeFields
	p pause
}

func (s *slowSubscribe) RequestID() uint64       { s.p.hit(); return s.SubscribeFields.RequestID() }
func (s *slowSubscribe) Options() map[string]any { s.p.hit(); return s.SubscribeFields.Options() }
func (s *slowSubscribe) Topic() string           { s.p.hit(); return s.SubscribeFields.Topic() }

type slowUnsubscribe struct {
	messages.UnsubscribeFields
	p pause
}

func (s *slowUnsubscribe) RequestID() uint64 { s.p.hit(); return s.UnsubscribeFields.RequestID() }
func (s *slowUnsubscribe) SubscriptionID() uint64 {
	s.p.hit()
	return s.UnsubscribeFields.SubscriptionID()
}

type slowPublish struct {
	messages.PublishFields
	p pause
}

func (s *slowPublish) RequestID() uint64       { s.p.hit(); return s.PublishFields.RequestID() }
func (s *slowPublish) Options() map[string]any { s.p.hit(); return s.PublishFields.Options() }
func (s *slowPublish) Topic() string           { s.p.hit(); return s.PublishFields.Topic() }
func (s *slowPublish) Args() []any             { s.p.hit(); return s.PublishFields.Args() }

type slowResult struct {
	messages.ResultFields
	p pause
}

func (s *slowResult) RequestID() uint64       { s.p.hit(); return s.ResultFields.RequestID() }
func (s *slowResult) Details() map[string]any { s.p.hit(); return s.ResultFields.Details() }

type slowRegistered struct {
	messages.RegisteredFields
	p pause
}

func (s *slowRegistered) RequestID() uint64 { s.p.hit(); return s.RegisteredFields.RequestID() }
func (s *slowRegistered) RegistrationID() uint64 {
	s.p.hit()
	return s.RegisteredFields.RegistrationID()
}

type slowUnregistered struct {
	messages.UnregisteredFields
	p pause
}

func (s *slowUnregistered) RequestID() uint64 { s.p.hit(); return s.UnregisteredFields.RequestID() }

type slowInvocation struct {
	messages.InvocationFields
	p pause
}

func (s *slowInvocation) RequestID() uint64 { s.p.hit(); return s.InvocationFields.RequestID() }
func (s *slowInvocation) RegistrationID() uint64 {
	s.p.hit()
	return s.InvocationFields.RegistrationID()
}

type slowPublished struct {
	messages.PublishedFields
	p pause
}

func (s *slowPublished) RequestID() uint64 { s.p.hit(); return s.PublishedFields.RequestID() }

type slowSubscribed struct {
	messages.SubscribedFields
	p pause
}

func (s *slowSubscribed) RequestID() uint64 { s.p.hit(); return s.SubscribedFields.RequestID() }
func (s *slowSubscribed) SubscriptionID() uint64 {
	s.p.hit()
	return s.SubscribedFields.SubscriptionID()
}

type slowUnsubscribed struct {
	messages.UnsubscribedFields
	p pause
}

func (s *slowUnsubscribed) RequestID() uint64 { s.p.hit(); return s.UnsubscribedFields.RequestID() }

type slowEvent struct {
	messages.EventFields
	p pause
}

func (s *slowEvent) SubscriptionID() uint64 { s.p.hit(); return s.EventFields.SubscriptionID() }
