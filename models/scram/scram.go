// Package scram stands in for github.com/xdg/scram: authentication is not part
// of what is checked.
package scram

import "hash"

type HashGeneratorFcn func() hash.Hash

type Client struct{ user, password, authz string }

type ClientConversation struct{ done bool }

func (f HashGeneratorFcn) NewClient(username, password, authzID string) (*Client, error) {
	return &Client{username, password, authzID}, nil
}

func (c *Client) NewConversation() *ClientConversation { return &ClientConversation{} }

func (c *ClientConversation) Step(challenge string) (string, error) { return "", nil }

func (c *ClientConversation) Done() bool { return c.done }
