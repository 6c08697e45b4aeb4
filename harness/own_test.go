package harness

import "github.com/xconnio/wampproto-go/messages"

// own gives a message fields of a type the library does not know, as an
// application can provide.
func own(m messages.Message) messages.Message {
	switch m := m.(type) {
	case *messages.Abort:
		return messages.NewAbortWithFields(struct{ messages.AbortFields }{m.AbortFields})
	case *messages.Authenticate:
		return messages.NewAuthenticateWithFields(struct{ messages.AuthenticateFields }{m.AuthenticateFields})
	case *messages.Call:
		return messages.NewCallWithFields(struct{ messages.CallFields }{m.CallFields})
	case *messages.Cancel:
		return messages.NewCancelWithFields(struct{ messages.CancelFields }{m.CancelFields})
	case *messages.Challenge:
		return messages.NewChallengeWithFields(struct{ messages.ChallengeFields }{m.ChallengeFields})
	case *messages.Error:
		return messages.NewErrorWithFields(struct{ messages.ErrorFields }{m.ErrorFields})
	case *messages.Event:
		return messages.NewEventWithFields(struct{ messages.EventFields }{m.EventFields})
	case *messages.GoodBye:
		return messages.NewGoodByeWithFields(struct{ messages.GoodByeFields }{m.GoodByeFields})
	case *messages.Hello:
		return messages.NewHelloWithFields(struct{ messages.HelloFields }{m.HelloFields})
	case *messages.Interrupt:
		return messages.NewInterruptWithFields(struct{ messages.InterruptFields }{m.InterruptFields})
	case *messages.Invocation:
		return messages.NewInvocationWithFields(struct{ messages.InvocationFields }{m.InvocationFields})
	case *messages.Publish:
		return messages.NewPublishWithFields(struct{ messages.PublishFields }{m.PublishFields})
	case *messages.Published:
		return messages.NewPublishedWithFields(struct{ messages.PublishedFields }{m.PublishedFields})
	case *messages.Register:
		return messages.NewRegisterWithFields(struct{ messages.RegisterFields }{m.RegisterFields})
	case *messages.Registered:
		return messages.NewRegisteredWithFields(struct{ messages.RegisteredFields }{m.RegisteredFields})
	case *messages.Result:
		return messages.NewResultWithFields(struct{ messages.ResultFields }{m.ResultFields})
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(struct{ messages.SubscribeFields }{m.SubscribeFields})
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(struct{ messages.SubscribedFields }{m.SubscribedFields})
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(struct{ messages.UnregisterFields }{m.UnregisterFields})
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(struct{ messages.UnregisteredFields }{m.UnregisteredFields})
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(struct{ messages.UnsubscribeFields }{m.UnsubscribeFields})
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(struct{ messages.UnsubscribedFields }{m.UnsubscribedFields})
	case *messages.Welcome:
		return messages.NewWelcomeWithFields(struct{ messages.WelcomeFields }{m.WelcomeFields})
	case *messages.Yield:
		return messages.NewYieldWithFields(struct{ messages.YieldFields }{m.YieldFields})
	}
	panic("HARNESS-ERROR: no own fields for this message")
}
